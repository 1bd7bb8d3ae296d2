"""Explore one harness, decide its goals, replay counterexamples, validate the translation."""
import json, math, multiprocessing as mp, os, re, signal, struct, subprocess, sys, time, traceback
sys.setrecursionlimit(20000)
import terms as T
import dd as D
import interp
import solve
import sample
import concrete
from interp import VM, State, Unsupported, UNDEF, Node, Poly, PathEnd
from solve import STATS

def hexf(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]

class Violation(Exception):
    def __init__(self, info):
        self.info = info

class TooLong(BaseException):
    pass

def _too_long(*_):
    raise TooLong()

class Harness:
    path_seconds = 240
    sample_left = 60.0
    def __init__(self, name, params, ir, binary, known, out, quick=True):
        self.name, self.params, self.binary, self.known = name, params, binary, known
        self.out = out
        self.ir = ir
        self.confirm_time = 8.0 if quick else 120.0
        self.seeds = list(range(1, (9 if quick else 25)))
        self.native = {}
        self.vm = None
        self.res = None

    def load(self):
        T.WRAP = int(self.params.get('wrap', 0))
        T.PLAIN = bool(self.params.get('plain', 0))
        self.vm = VM(self.ir, self.params)
        self.vm.plain = T.PLAIN
        self.vm.goal = self.goal
        self.vm.prune = self.prune
        self.vm.implied = self.implied

    # ------------------------------------------------------------ native runs
    def model_text(self, seed, choices=None, vs=None, table=None):
        L = ['# harness %s' % self.name, 'seed %d' % seed]
        L += ['p %s %d' % kv for kv in sorted(self.params.items())]
        L += ['c %s %d' % kv for kv in sorted((choices or {}).items())]
        L += ['v %s %s' % (k, hexf(v)) for k, v in sorted((vs or {}).items())]
        for n, args, v in table or ():
            L.append('u %s %s' % (n, ' '.join(hexf(x) for x in list(args) + [v])))
        return '\n'.join(L) + '\n'

    def run_native(self, text, tag=''):
        path = '%s/%s.%d%s.model' % (self.out, self.name, os.getpid(), tag)
        with open(path, 'w') as f:
            f.write(text)
        try:
            p = subprocess.run([self.binary, self.name, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = 'TIMEOUT\n'
        os.unlink(path)
        return out

    @staticmethod
    def parse(out):
        log, end = [], 'crash'
        for l in out.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == 'CHECK':
                log.append(('check', w[1], int(w[2]), float(w[3]), float(w[4]), float(w[5])))
            elif w[0] == 'OBS':
                log.append(('obs', w[1], float(w[3])))
            elif w[0] == 'COVER':
                log.append(('cover', w[1]))
            elif w[0] in ('END', 'PANIC', 'INFEASIBLE', 'TIMEOUT'):
                end = w[0]
        return log, end

    # ------------------------------------------------------------ goals
    def goal(self, kind, name, payload, extra):
        st = self.vm.st
        STATS.goals += 1
        name = name.replace(' ', '_')
        a = b = None
        known = None
        if kind == 'check':
            ok = D.lift(_nu, payload)
        elif kind == 'le':
            a, b = payload
            ok = D.lift(interp.le_leaf, a, b)
        else:
            a, b = payload[0], payload[1]
            ok = D.lift(interp.eq_leaf, a, b)
            if kind == 'known' and extra in self.known:
                alt = payload[3 - 1 + 0] if False else payload[2]
                ok2 = D.lift(interp.eq_leaf, a, alt)
                known = (ok, ok2)
        if st.hyps and kind in ('eq', 'known') and not (type(ok) is int and ok == 1):
            f, flat = solve.eq_under(st.hyps, a, b)
            ok = D.lift(f, a, b, *flat)
            if known:
                known = (ok, D.lift(f, a, payload[2], *flat))
        if known:
            bad = D.band(st.pc, D.bnot(known[0]))
            if not _false(bad):
                self.res['known'].setdefault(extra, [name, 0])[1] += 1
            ok = D.bor(known[0], known[1])
        st.log.append(('check', name, ok, a, b))
        self.res['goal_names'][name] = self.res['goal_names'].get(name, 0) + 1
        viol = D.band(st.pc, D.bnot(ok))
        if _false(viol):
            STATS.normal += 1
            if not known:
                self.confirm(kind, ok, a, b)
            return
        self.decide(viol, name, (a, b))

    def prune(self, pc):
        """Whether a branch of a computation with rounding is feasible"""
        if self.vm.st.round is None and not self.vm.plain or type(pc) is not Node:
            return True
        for cube in D.cubes(pc, 50):
            if str(solve.cube_query(cube)[0]) != 'unsat':
                return True
        return False

    def implied(self, pc, c, v):
        """A branch whose outcome follows from the path condition: pose the other outcome to the solver"""
        res = self.res
        if v not in (0, 1):
            return
        key = (D.key(pc), D.key(c))
        if key in res['_posed']:
            return
        res['_posed'].add(key)
        res['implied'] += 1
        if res['implied_left'] <= 0:
            return
        t = time.time()
        r = solve.confirm(D.band(pc, 1), c if v else D.bnot(c), None, None, ())
        res['implied_left'] -= time.time() - t
        if r == 'unsat':
            res['implied_confirmed'] += 1
        elif r == 'sat':
            res['disagree'].append('a branch')

    def confirm(self, kind, ok, a, b):
        """Pose the goal to the solver as well, while the time set aside for this lasts"""
        st, res = self.vm.st, self.res
        if kind == 'le':
            a = b = None
        key = (D.key(st.pc), D.key(ok), D.key(a) if a is not None else None, D.key(b) if b is not None else None)
        if key in res['_posed']:
            return
        res['_posed'].add(key)
        if type(ok) is not Node and (a is None or type(a) not in (Node, Poly) and type(b) not in (Node, Poly)):
            res['syntactic'] += 1
            return
        res['distinct'] += 1
        if res['confirm_left'] <= 0:
            return
        t = time.time()
        r = solve.confirm(st.pc, ok, a, b, st.hyps)
        res['confirm_left'] -= time.time() - t
        if r == 'unsat':
            res['confirmed'] += 1
        elif r == 'sat':
            res['disagree'].append('%s' % describe((a, b)))

    def decide(self, viol, name, ab):
        st = self.vm.st
        key = viol.id if type(viol) is Node else viol
        if key in self.res['_decided']:
            return
        if solve.linear_refute(viol):
            self.res['_decided'].add(key)
            return
        hyps = self.hyp_rows(st)
        cubes = D.cubes(viol, 400)
        res, found = [], []
        t0 = time.time()
        for cube in cubes:
            if solve.interval_refute(cube):
                STATS.normal += 1
                continue
            if any(set(c) <= set(cube) for c in self.res['_unsatcubes']):
                continue
            if time.time() - t0 > 240:
                res.append('unknown')
                break
            r, e, m = solve.cube_query(cube, hyps)
            r = str(r)
            if r == 'unsat':
                self.res['_unsatcubes'].append(cube)
                continue
            res.append(r)
            found.append(cube)
            if r == 'sat':
                if m is None:
                    r2, e, m = solve.cube_query(cube, hyps, extra=lambda e: [])
                self.try_model(name, e, m, ab)
            if len(res) >= 3:
                break
        if not res:
            self.res['_decided'].add(key)
            return
        # the solver found (or cannot exclude) a violation: find concrete values along this path
        if self.search_left > 0:
            t = time.time()
            concrete.search(self, name, found, min(60, self.search_left))
            self.search_left -= time.time() - t
        self.sample(name)
        self.res['undecided'].append('%s: solver answers %s, no concrete run found%s' % (name, ','.join(res), describe(ab)))
        self.res['_decided'].add(key)

    def hyp_rows(self, st):
        if not st.hyps:
            return ()
        flat, shape = solve.row_polys(st.hyps)
        if any(type(v) is Node for v in flat):
            return ()
        return tuple(solve.build_rows(shape, flat))

    def fails(self, out):
        log, end = self.parse(out)
        if end == 'INFEASIBLE':
            return None
        for x in log:
            if x[0] == 'check' and x[2] == 0:
                return x
        return ('panic',) if end in ('PANIC', 'crash', 'TIMEOUT') and self.want_panic else None

    want_panic = False
    search_left = 150.0
    def try_model(self, name, e, m, ab):
        st = self.vm.st
        vs, table = solve.model_of(e, m)
        env = sample.Env(1, fixed=vs)
        tab = []
        for n, a, v in sorted(table, key=lambda x: x[1].id):
            args = [T.evaluate(g, env) for g in a.args]
            tab.append((n, args, v))
            env.table.setdefault(n, []).append((args, v))
            env.cache.pop(a.id, None)
        for seed in (1, 2, 3):
            text = self.model_text(seed, st.choices, vs, tab)
            self.confirm_run(name, text, 'model')

    def confirm_run(self, name, text, how):
        out = self.run_native(text)
        f = self.fails(out)
        if f is not None:
            raise Violation({'harness': self.name, 'goal': name, 'native': [str(x) for x in f], 'how': how, 'model': text})

    def sample(self, name):
        st = self.vm.st
        for seed in range(1, 81):
            if self.sample_left <= 0:
                return
            t = time.monotonic()
            # every other run keeps the values of wide ranges small, where they do not hide one another
            vs = {n: 10 ** (9 * sample.hash_(seed, n, 0) - 8) for n, (lo, hi) in st.vars.items() if lo <= 1e-8 and hi >= 1e6} if seed % 2 else None
            self.confirm_run(name, self.model_text(seed, st.choices, vs), 'search along the path the solver found')
            self.sample_left -= time.monotonic() - t

    # ------------------------------------------------------------ exploration
    def start(self):
        st = State()
        self.vm.enter(st)
        self.vm.push('@' + self.name, [], None)
        return st

    def fresh(self):
        self.res = {'paths': 0, 'ends': {}, 'known': {}, 'goal_names': {}, 'undecided': [], 'covers': {}, 'matched': {}, 'cut': {}, 'mismatch': [],
                    'unsupported': [], 'violation': None, 'confirm_left': self.confirm_time, 'confirmed': 0, 'distinct': 0, 'syntactic': 0, 'implied': 0, 'implied_confirmed': 0, 'implied_left': self.confirm_time, '_posed': set(), 'disagree': [], '_decided': set(), '_unsatcubes': [],
                    'steps': 0, 'forks': 0, 'ifconv': 0, 'functions': {}, 'stats': {}, 'samples': [], 'inputs': {}}

    def one(self):
        """Run the current state to its end."""
        vm = self.vm
        signal.signal(signal.SIGALRM, _too_long)
        signal.setitimer(signal.ITIMER_REAL, self.path_seconds)
        try:
            why = vm.run()
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation:
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        except (TooLong, MemoryError) as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            why = 'unsupported'
            self.res['unsupported'].append('a path takes too much %s' % ('time' if type(e) is TooLong else 'memory'))
            self.sample('unsupported')
        except RecursionError as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            why = 'unsupported'
            self.res['unsupported'].append('recursion: %r' % e)
        except (Unsupported, NotImplementedError, TypeError, KeyError, ValueError, AttributeError, IndexError, AssertionError, struct.error, OverflowError, ZeroDivisionError) as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            why = 'unsupported'
            fr = vm.st.frames[-1] if vm.st.frames else None
            where = '%s %s' % (fr.func.name, fr.block.name) if fr else ''
            tb = traceback.format_exc().strip().splitlines()[-3:]
            self.res['unsupported'].append('%s: %r at %s | %s' % (type(e).__name__, e, where, ' '.join(tb)))
            # the native program may still show a violation here
            self.sample('unsupported')
        res, st = self.res, vm.st
        res['ends'][why] = res['ends'].get(why, 0) + 1
        if why == 'infeasible':
            return
        if why == 'limit':
            # outside the bounds; so is a native run along this path
            for seed in self.native:
                if self.on_path(seed, self.path_env(seed)):
                    res['cut'][seed] = res['cut'].get(seed, 0) + 1
            return
        if why == 'panic' and not st.allow_panic or why == 'unreachable':
            STATS.goals += 1
            self.want_panic = True
            self.decide(st.pc, 'no_panic', None)
            self.want_panic = False
        res['paths'] += 1
        for x in st.log:
            if x[0] == 'cover':
                res['covers'][x[1].replace(' ', '_')] = res['covers'].get(x[1].replace(' ', '_'), 0) + 1
        for n, b in st.vars.items():
            res['inputs'][n] = b
        if len(res['samples']) < 3:
            res['samples'].append({'choices': dict(st.choices), 'end': why, 'path_condition': show_bool(st.pc), 'goals': sum(1 for x in st.log if x[0] == 'check')})
        if why in ('end', 'panic'):
            self.validate(why)

    def path_env(self, seed):
        st = self.vm.st
        return sample.Env(seed, la=self.la_env(st), fresh={n: (lambda e, x=x: value(x, e)) for n, x in st.fresh.items()})

    def on_path(self, seed, env):
        st = self.vm.st
        if any(env.choice(n, self.choice_size.get(n, k + 1)) != k for n, k in st.choices.items()):
            return False
        return truth(st.pc, env)

    def validate(self, why):
        st = self.vm.st
        for seed, (log, end) in self.native.items():
            env = self.path_env(seed)
            if not self.on_path(seed, env):
                continue
            self.res['matched'][seed] = self.res['matched'].get(seed, 0) + 1
            bad = compare(st.log, log, env)
            if (end == 'END') != (why == 'end'):
                bad = bad or 'ends with %s, natively %s' % (why, end)
            if bad:
                self.res['mismatch'].append('seed %d: %s' % (seed, bad))

    def la_env(self, st):
        if not st.hyps:
            return None
        cache = {}
        def la(env, a):
            _, k, j = a.name.split('.')
            k, j = int(k), int(j)
            if k not in cache:
                import numpy as np
                A, b, x = st.hyps[k]
                n = len(b)
                M = np.array([[value(A[i + c * n], env) for c in range(n)] for i in range(n)])
                v = np.array([value(y, env) for y in b])
                sc = np.abs(M).max(axis=1)
                sc[sc == 0] = 1
                try:
                    cache[k] = np.linalg.solve(M / sc[:, None], v / sc)
                except np.linalg.LinAlgError:
                    cache[k] = [math.nan] * n
            return float(cache[k][j])
        return la

    def explore(self, workers, budget):
        t0 = time.time()
        self.load()
        vm = self.vm
        self.fresh()
        self.choice_size = {}
        def x_choice(v, a):
            self.choice_size[v.name(a)] = a[3]
            return interp.x_choice(v, a)
        vm.ext['__v_choice'] = x_choice
        for s in self.seeds:
            out = self.run_native(self.model_text(s))
            log, end = self.parse(out)
            if end != 'INFEASIBLE':
                self.native[s] = (log, end)
        try:
            st = self.start()
            self.one()
            done = 1
            # breadth first until there is enough work to share
            while vm.pending and (workers == 1 or len(vm.pending) < 6 * workers and (
                    len(vm.pending) < 3 or time.time() - t0 < 4)) and time.time() - t0 < budget:
                vm.resume_or = None
                self.step(vm.pending.pop(0))
            if vm.pending:
                self.parallel(workers, budget - (time.time() - t0))
        except Violation as v:
            self.res['violation'] = v.info
        if self.res['violation'] is None and time.time() - t0 > budget:
            self.res['undecided'].append('time budget exhausted')
        self.finish_local()
        self.res['wall'] = time.time() - t0
        return self.res

    def step(self, item):
        try:
            self.vm.resume(item)
        except PathEnd:
            return
        self.one()

    def finish_local(self):
        r, vm = self.res, self.vm
        r['steps'] += vm.steps
        r['forks'] += vm.forks
        r['ifconv'] += vm.ifconv
        for k, v in vm.encoded.items():
            r['functions'][k] = r['functions'].get(k, 0) + v
        merge_stats(r['stats'], STATS.dict())
        vm.steps = vm.forks = vm.ifconv = 0
        vm.encoded = {}
        for k in STATS.__dict__:
            setattr(STATS, k, 0)
        r.pop('_decided', None)
        r.pop('_unsatcubes', None)
        r.pop('_posed', None)

    def parallel(self, workers, budget):
        global _H, _PENDING
        _H, _PENDING = self, self.vm.pending
        self.vm.pending = []
        n = len(_PENDING)
        t0 = time.time()
        ctx = mp.get_context('fork')
        base = self.res
        with ctx.Pool(workers, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_work, [(i, t0 + budget) for i in range(n)])
            for _ in range(n):
                try:
                    r = it.next(timeout=max(1, budget + 120 - (time.time() - t0)))
                except mp.TimeoutError:
                    base['undecided'].append('time budget exhausted')
                    break
                merge(base, r)
                if r['violation']:
                    break
            pool.terminate()

def _work(arg):
    i, deadline = arg
    H = _H
    if not getattr(H, '_child', False):
        H._child = True
        H.vm.steps = H.vm.forks = H.vm.ifconv = 0
        H.vm.encoded = {}
        for k in STATS.__dict__:
            setattr(STATS, k, 0)
        H._dec, H._un, H._posed, H._left = set(), [], set(), (H.confirm_time, H.confirm_time)
    H.fresh()
    H.res['_decided'], H.res['_unsatcubes'] = H._dec, H._un
    H.res['confirm_left'], H.res['implied_left'] = H._left
    H.res['_posed'] = H._posed
    H.vm.pending = []
    try:
        H.step(_PENDING[i])
        while H.vm.pending:
            if time.time() > deadline:
                H.res['undecided'].append('time budget exhausted')
                break
            H.step(H.vm.pending.pop())
    except Violation as v:
        H.res['violation'] = v.info
    except MemoryError:
        H.res['undecided'].append('out of memory')
    H._left = H.res['confirm_left'], H.res['implied_left']
    H.finish_local()
    return H.res

def merge_stats(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v

def merge(a, b):
    for k in ('paths', 'steps', 'forks', 'ifconv', 'confirmed', 'distinct', 'syntactic', 'implied', 'implied_confirmed'):
        a[k] += b[k]
    for k in ('ends', 'goal_names', 'covers', 'matched', 'cut', 'functions'):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    for n, v in b['known'].items():
        o = a['known'].setdefault(n, [v[0], 0])
        o[1] += v[1]
    a['inputs'].update(b['inputs'])
    for k in ('undecided', 'mismatch', 'unsupported', 'disagree'):
        a[k] += b[k]
    a['samples'] = (a['samples'] + b['samples'])[:4]
    merge_stats(a['stats'], b['stats'])
    if b['violation'] and not a['violation']:
        a['violation'] = b['violation']

def _nu(x):
    return 0 if x is UNDEF else x
def _false(c):
    return type(c) is int and c == 0

def describe(ab):
    if not ab or ab[0] is None:
        return ''
    def s(x):
        if type(x) is Node:
            return 'diagram'
        return T.show(x, 6) if type(x) is Poly else str(x)
    return ' [%s | %s]' % (s(ab[0])[:300], s(ab[1])[:300])

def show_bool(c, limit=8):
    if type(c) is int:
        return str(bool(c))
    out = []
    for cube in D.cubes(c, 1):
        for v, ss in cube[:limit]:
            out.append('%s %s 0' % (T.show(D.PREDS[v], 4)[:160], {(-1,): '<', (0,): '=', (1,): '>', (-1, 0): '<=', (0, 1): '>=', (-1, 1): '!='}.get(tuple(ss), '?')))
        if len(cube) > limit:
            out.append('... %d conditions' % len(cube))
    return ' and '.join(out)

def value(v, env):
    while type(v) is Node:
        s = env_sign(v.v, env)
        v = v.n if s < 0 else v.p if s > 0 else v.z
    if type(v) is Poly:
        return T.evaluate(v, env)
    if v is UNDEF:
        return math.nan
    return v

def env_sign(v, env):
    c = env.__dict__.setdefault('signs', {})
    s = c.get(v)
    if s is None:
        x = T.evaluate(D.PREDS[v], env)
        s = c[v] = (x > 0) - (x < 0)
    return s

def truth(c, env):
    return bool(value(c, env))

def compare(sym, nat, env):
    s = [x for x in sym]
    i = 0
    for x in s:
        if i >= len(nat):
            return 'native run stops before %s' % x[1]
        y = nat[i]
        i += 1
        if x[0] != y[0] or x[1].replace(' ', '_') != y[1]:
            return 'expected %s %s, native %s %s' % (x[0], x[1], y[0], y[1])
        if x[0] == 'obs':
            v = value(x[2], env)
            if not near(v, y[2]):
                return 'observation %s: %r, native %r' % (x[1], v, y[2])
        elif x[0] == 'check' and x[3] is not None:
            for v, w in ((x[3], y[3]), (x[4], y[4])):
                if has_deriv(v):
                    continue
                v = value(v, env)
                if not near(v, w, y[3], y[4], y[5]):
                    return 'check %s: %r, native %r' % (x[1], v, w)
    if i < len(nat):
        return 'native run goes on with %s %s' % nat[i][:2]
    return None

def has_deriv(v):
    if type(v) is Poly:
        return any(a.kind == 'uf' and a.name.startswith('D') and a.name[1:2].isdigit() for a in T.atoms_of(v).values())
    if type(v) is Node:
        return any(has_deriv(x) for x in D.leaves(v))
    return False

def near(a, b, *sc):
    if a != a and b != b:
        return True
    try:
        m = max([abs(a), abs(b)] + [abs(x) for x in sc if x == x and math.isfinite(x)])
        return a == b or abs(a - b) <= 1e-5 * m + 1e-290
    except TypeError:
        return False
