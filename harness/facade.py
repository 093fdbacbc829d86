# C22: the Python solver class, executed symbolically (z3) around a model of the bindings whose names are those registered by
# _bindings.cpp.  facade.py sym|nat <src> <names> [input file]
import os, sys, json, time, types, importlib, traceback, hashlib
sys.dont_write_bytecode = True
mode, SRC, NAMES = sys.argv[1:4]
import z3
class Prune(Exception): pass
class Fail(BaseException):
    def __init__(s, m): s.m = m
class Eng: pass
E = Eng(); E.queries = E.sat = E.unsat = E.unknown = 0; E.solver_s = 0.; E.branches = 0; E.implied = 0
def check(*a):
    t = time.time(); r = E.s.check(*a); E.solver_s += time.time() - t; E.queries += 1
    if r == z3.sat: E.sat += 1
    elif r == z3.unsat: E.unsat += 1
    else: E.unknown += 1
    return r
def decide(e):  # fork on a boolean expression
    if mode == 'nat': return bool(e)
    if e is True or e is False: return e
    E.branches += 1; d = E.depth; E.depth += 1
    if d < len(E.script): v = E.script[d]
    else:
        a = check(e) != z3.unsat; b = check(z3.Not(e)) != z3.unsat
        if not a and not b: raise Prune()
        v = a
        if a and b: E.todo.append(E.script[:d] + [False])
        else: E.implied += 1
        E.script.append(v)
    E.s.add(e if v else z3.Not(e)); return v
def raw(x): return x.e if isinstance(x, Sym) else x
class SBool:
    def __init__(s, e): s.e = e
    def __bool__(s): return decide(s.e)
    def __and__(s, o): return s if bool(s) and bool(o) else False
class Sym:
    def __init__(s, e): s.e = e
    def _c(s, o, f):
        if not isinstance(o, (int, float, Sym)): return NotImplemented
        if isinstance(o, float):
            if o != o: return f(1, float('nan'))
            if o in (float('inf'), float('-inf')): return f(0, o)
        return SBool(f(s.e, raw(o)))
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b)
    def _a(s, o, f): return type(s)(f(s.e, raw(o))) if isinstance(o, (int, float, Sym)) else NotImplemented
    def __add__(s, o): return s._a(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._a(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._a(o, lambda a, b: b - a)
    def __mul__(s, o): return s._a(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(s): return type(s)(-s.e)
    def __bool__(s): return decide(s.e != 0)
    def __hash__(s): return hash(pin(s))
    def __index__(s): return pin(s)
    def __int__(s): return pin(s)
    def __float__(s): return float(pin(s))
    def __repr__(s): return '<value>'
def pin(x):  # fork on every feasible integer value
    if not isinstance(x, Sym): return x
    e = x.e
    if z3.is_int_value(e): return e.as_long()
    k = e.get_id()
    if k in E.pins: return E.pins[k][0]
    lo, hi = E.range.get(k, (None, None))
    if lo is not None:
        for v in range(lo, hi + 1):
            if decide(e == v): E.pins[k] = (v, e); return v
        raise Prune()
    while True:
        check(); v = E.s.model().eval(e, model_completion=True)
        if decide(e == v): E.pins[k] = (v.as_long(), e); return v.as_long()
def val(name, lo, hi):  # an input
    i = len(E.inputs)
    if mode == 'nat':
        v = E.given[i] if i < len(E.given) else lo; E.inputs.append(v); return v
    x = z3.Int('%s_%d' % (name, i)); E.inputs.append(x); E.s.add(x >= lo, x <= hi); E.range[x.get_id()] = (lo, hi); return Sym(x)
def half(name, lo, hi):  # a number with a binary fraction
    v = val(name, lo, hi)
    return v * 0.5 if mode == 'nat' else Real(z3.ToReal(v.e) / 2)
class Real(Sym): pass
def choose(name, n): # an enumerated input
    if mode == 'nat': return val(name, 0, n - 1)
    if n == 1: E.inputs.append(z3.IntVal(0)); return 0
    d = E.depth; E.depth += 1; E.branches += 1
    if d < len(E.script): v = E.script[d]
    else:
        for k in range(n - 1, 0, -1): E.todo.append(E.script[:d] + [k])
        v = 0; E.script.append(v)
    E.inputs.append(z3.IntVal(v)); return v
def cover(n): E.covers[n] = E.covers.get(n, 0) + 1
def obs(x): E.obs.append(x)
def CK(c, m):
    if not c: raise Fail('C22: ' + m)
# ---- the bindings
known = {}; attrs = {}; funcs = set()
for l in open(NAMES):
    p = l.split()
    if not p: continue
    if p[0] == 'K': known[(p[1].split('.')[0], int(p[2]))] = p[1].split('.')[1]
for l in open(NAMES):
    p = l.split()
    if not p: continue
    if p[0] == 'A':
        c, n = p[1].split('.'); attrs.setdefault(c, {})[n] = known.get((c, int(p[2])), n)
    if p[0] == 'F': funcs.add(p[1])
class Bound:
    FIELDS = {}
    def __init__(s, *a):
        if a: raise TypeError('__init__(): incompatible constructor arguments')
        object.__setattr__(s, 'f', {k: v() for k, v in s.FIELDS.items()})
    def __getattr__(s, n):
        t = attrs.get(type(s).__name__, {})
        if n not in t: raise AttributeError("'%s' object has no attribute '%s'" % (type(s).__name__, n))
        v = s.f[t[n]]; return deep(v) if isinstance(v, list) else v
    def __setattr__(s, n, v):
        t = attrs.get(type(s).__name__, {})
        if n not in t: raise AttributeError("'%s' object has no attribute '%s'" % (type(s).__name__, n))
        k = t[n]; o = s.f[k]
        if isinstance(o, Bound):
            if type(v) is not type(o): raise TypeError('incompatible argument')
            v = v._copy()
        elif isinstance(o, list): v = deep(list(v))
        elif isinstance(o, str):
            if not isinstance(v, str): raise TypeError('incompatible argument')
        s.f[k] = v
    def _copy(s):
        c = type(s)(); c.f.clear(); c.f.update({k: (v._copy() if isinstance(v, Bound) else deep(v)) for k, v in s.f.items()}); return c
def deep(v): return [deep(x) for x in v] if isinstance(v, list) else v
def cls(name, fields): return type(name, (Bound,), {'FIELDS': fields})
L = list; Z = lambda v: (lambda: v)
Environment = cls('Environment', dict(inst_path=str, sol_path=str, initsol_path=str, parser=Z('RAIL'), seed=Z(0), time_limit=Z(float('inf')), verbose=Z(4), epsilon=Z(.999), heur_iters=Z(250), alpha=Z(1.1), beta=Z(1.), abs_subgrad_exit=Z(1.), rel_subgrad_exit=Z(.001), use_unit_costs=Z(False), min_fixing=Z(.3)))
SparseBinMat = cls('SparseBinMat', dict(idxs=L, begs=lambda: [0]))
Instance = cls('Instance', dict(cols=lambda: SparseBinMat(), rows=L, costs=L))
Solution = cls('Solution', dict(idxs=L, cost=Z(0.)))
DualState = cls('DualState', dict(mults=L, lb=Z(0.)))
CftResult = cls('CftResult', dict(sol=lambda: Solution(), dual=lambda: DualState()))
FileData = cls('FileData', dict(inst=lambda: Instance(), init_sol=lambda: Solution()))
def push(m, col): m.f['idxs'] += list(col); m.f['begs'].append(len(m.f['idxs']))
def sets(i): m = i.f['cols']; return [m.f['idxs'][m.f['begs'][k]:m.f['begs'][k + 1]] for k in range(len(m.f['begs']) - 1)]
def m_add(s, col, cost):
    if not isinstance(col, (list, tuple)): raise TypeError('incompatible function arguments')
    for e in col:
        if e < -32768 or e > 32767: raise TypeError('incompatible function arguments')
    if cost < 0: raise RuntimeError('Costs must be non-negative.')
    push(s.f['cols'], col); s.f['costs'].append(cost); return len(s.f['costs']) - 1
def m_prepare(s):
    ss = sets(s); top = -1
    for c in ss:
        for e in c:
            if e < 0: raise RuntimeError('Item indexes must be non-negative.')
            if e > top: top = e
    top = pin(top)
    if top + 1 > len(s.f['cols'].f['idxs']): raise RuntimeError('Item index out of bounds.')
    rows = [[] for _ in range(top + 1)]
    for j, c in enumerate(ss):
        for e in c: rows[pin(e)].append(j)
    for r in rows:
        if not r: raise RuntimeError('Item not contained in any set.')
    s.f['rows'] = rows
def method(c, n, f):
    if c.__name__ + '.' + n in funcs: setattr(c, n, f)
method(Instance, 'add', m_add); method(Instance, 'prepare', m_prepare)
for c in (Instance, Solution, DualState, CftResult): method(c, 'copy', lambda s: s._copy())
method(SparseBinMat, 'clear', lambda s: s.f.update(idxs=[], begs=[0])); method(SparseBinMat, 'push_back', push); method(SparseBinMat, '__len__', lambda s: len(s.f['begs']) - 1); method(SparseBinMat, '__getitem__', lambda s, k: s.f['idxs'][s.f['begs'][k]:s.f['begs'][k + 1]])
for c in (Environment, Solution, DualState, CftResult): c.__repr__ = lambda s: type(s).__name__
W = Eng()
def covers(ss, pick, top):
    for i in range(top + 1):
        hit = False
        for j in pick:
            for e in ss[j]:
                if e == i: hit = True; break
            if hit: break
        if not hit: return False
    return True
def m_run(env, inst, warm=None):
    if not isinstance(env, Environment) or not isinstance(inst, Instance) or not isinstance(warm, (Solution, type(None))): raise TypeError('incompatible function arguments')
    W.runs += 1; W.env = env._copy(); warm = warm._copy() if warm is not None else Solution(); W.warm = warm; ss = sets(inst); top = len(inst.f['rows']) - 1; W.inst = inst._copy()
    rows = [[] for _ in range(top + 1)]
    for j, c in enumerate(ss):
        for e in c:
            CK(0 <= e <= top, 'solver runs on an instance whose rows are not those of its sets'); rows[pin(e)].append(j)
    CK(rows == inst.f['rows'], 'solver runs on an instance whose rows are not those of its sets')
    w = warm.f['idxs']; CK(all(0 <= j < len(ss) for j in w), 'warm start has sets that do not exist')
    if w: CK(covers(ss, w, top), 'warm start does not cover every element')
    r = CftResult()
    k = choose('pick', 2) if W.runs == 1 or DEEP else 1; pick = list(range(len(ss)))
    if k:  # without superfluous sets
        for j in list(pick):
            if covers(ss, [x for x in pick if x != j], top): pick.remove(j)
        pick.reverse()
    r.f['sol'].f['idxs'] = pick; r.f['sol'].f['cost'] = half('cost', 0, 20); r.f['dual'].f['mults'] = [half('mult', 0, 20) if W.big else _ + 0.5 for _ in range(top + 1)]; r.f['dual'].f['lb'] = half('lb', -10, 20); W.last = r._copy(); return r
def m_parse(env):
    if not isinstance(env, Environment): raise TypeError('incompatible function arguments')
    W.parsed = env._copy()
    if choose('unreadable', 2): raise RuntimeError('Cannot open file.')
    fd = FileData(); i = fd.f['inst']; kind = choose('file', 3)
    for c, x in ([[0], 2.], [[0, 1], 3.5]) if kind < 2 else ([[0, 2], 1.], [[1], 1.], [[2], 4.]): push(i.f['cols'], c); i.f['costs'].append(x)
    m_prepare(i)
    if kind: fd.f['init_sol'].f['idxs'] = [1] if kind == 1 else [1, 0]; fd.f['init_sol'].f['cost'] = 3.5 if kind == 1 else 2.
    W.fd = fd; return fd
b = types.ModuleType('pycft._bindings')
for c in (Environment, SparseBinMat, Instance, Solution, DualState, CftResult, FileData): setattr(b, c.__name__, c)
for n, f in (('run', m_run), ('parse_inst_and_initsol', m_parse)):
    if '.' + n in funcs: setattr(b, n, f)
pk = types.ModuleType('pycft'); pk.__path__ = [SRC + '/pycft']; sys.modules['pycft'] = pk; sys.modules['pycft._bindings'] = b
try:
    importlib.import_module('pycft.set_cover_solver'); SetCoverSolver = sys.modules['pycft.set_cover_solver'].SetCoverSolver; broken = None
except Exception as e: broken = '%s: %s' % (type(e).__name__, e)
# ---- the test: a history of calls
DEEP = int(os.environ.get('FACADE_DEEP', '0')); devnull = open(os.devnull, 'w')
def instance(s): # the solver's own instance (found by type, not by name)
    v = [x for x in vars(s).values() if isinstance(x, Instance)]; return v[0] if len(v) == 1 else None
def snap(s): i = instance(s); return None if i is None else (sets(i), list(i.f['costs']))
def test():
    if broken: raise Fail('C22: module cannot be used with the bindings: ' + broken)
    W.runs = 0; W.last = W.env = W.warm = None; s = SetCoverSolver(); have = []; costs = []; prev = None; fresh = False; res = None; fromFile = False; known = set()
    def accessors():
        sol, cost, lb = s.get_solution(), s.get_cost(), s.get_lower_bound()
        if res is None: CK(sol is None and cost is None and lb == 0 and s.get_dual_multipliers() is None, 'accessors before the first solve are not the documented empty values'); return
        CK(isinstance(sol, list) and sol == res.f['sol'].f['idxs'], 'solution is not the one of the last solve'); CK(cost == res.f['sol'].f['cost'], 'cost is not the one of the last solve')
        if res is W.fd: return
        CK(lb == res.f['dual'].f['lb'], 'lower bound is not the one of the last solve'); m = s.get_dual_multipliers(); CK(isinstance(m, list) and len(m) == len(res.f['dual'].f['mults']), 'multipliers are not those of the last solve')
        for x, y in zip(m, res.f['dual'].f['mults']): CK(x == y, 'multipliers are not those of the last solve')
        sol.append(99); CK(s.get_solution() == res.f['sol'].f['idxs'], 'changing the returned list changes the solver')
    W.fd = None; accessors()
    ADD, ODD, SOLVE, FILE = 0, 1, 2, 4
    PLANS = [[ADD, SOLVE], [ADD, ADD, SOLVE, SOLVE], [ADD, SOLVE, ADD, SOLVE], [ADD, SOLVE, ODD, ADD, SOLVE], [FILE, SOLVE, ADD, SOLVE], [ADD, SOLVE, FILE, SOLVE], [FILE, ADD, SOLVE], [ODD, ADD, SOLVE], [FILE, ODD, SOLVE], [ADD, SOLVE, FILE, ADD, SOLVE], [SOLVE, ADD, SOLVE], [FILE, FILE, SOLVE], [ADD, ODD, SOLVE, ADD, SOLVE]]
    if DEEP: PLANS += [[ADD, SOLVE, ADD, SOLVE, ADD, SOLVE], [ADD, ODD, ODD, SOLVE], [FILE, SOLVE, ODD, ADD, SOLVE], [ADD, SOLVE, ODD, ADD, ADD, SOLVE]]
    plan = PLANS[choose('plan', len(PLANS))]; big = W.big = len(plan) < 3 or DEEP; top_item = 3 if big else 2
    for step, op in enumerate(plan):
        if op < 2:
            k = choose('n', 3) if op else 2 if step == 0 and len(plan) > 3 and not DEEP else 1 + choose('n', 2); el = [val('item', -1 if op else 0, top_item) for _ in range(k)]; cost = half('cost', -2 if op else 0, 6); odd = choose('odd', 3) if op else 0
            if step == 0 and len(plan) > 3 and not DEEP and op == ADD: el = [0, 1]
            if odd == 1 and k: el[-1] = 40000
            if odd == 2: cost = float('nan')
            before = snap(s); given = list(el)
            try: r = s.add_set(el, cost); ok = True
            except Exception: ok = False
            neg = any(e < 0 for e in given) or cost < 0
            if not ok:
                after = snap(s)
                if before: CK(len(before[0]) == len(after[0]) and before[0] == after[0] and before[1] == after[1], 'a rejected set changes the instance')
                cover('rejected'); CK(neg or odd or not k, 'a valid set is rejected')
                accessors(); continue
            CK(not neg, 'a negative cost or element is accepted'); CK(r == len(have), 'set index is not the next one'); have.append(given); costs.append(cost); cover('added')
            new = False
            for e in given:
                if not any(bool(e == q) for q in known): new = True; known.add(pin(e))
            i = instance(s)
            if i is not None: CK(len(i.f['costs']) == len(have) and sets(i)[-1] == given and (cost != cost or i.f['costs'][-1] == cost), 'added set is not in the instance')
            if new: prev = None; fresh = True
            if new and res is not None: res = None; CK(s.get_solution() is None, 'an old solution is still returned although a new element appeared')
            elif res is not None and s.get_solution() is None: res = None; CK(fromFile, 'solution lost although no new element appeared')
            if res is None: prev = prev if s.get_solution() is not None else None
            accessors()
        elif op == 2:
            P = dict(seed=0, time_limit=float('inf'), verbose=2, epsilon=.999, heur_iters=250, alpha=1.1, beta=1., abs_subgrad_exit=1., rel_subgrad_exit=.001, min_fixing=.3); a = {}
            if step < 2 and len(plan) == 2:
                n = choose('param', 11)
                if n: kx = list(P)[n - 1]; a[kx] = val('p', 0, 50) if kx in ('seed', 'verbose', 'heur_iters') else half('p', 0, 50)
            runs = W.runs; top = max(known) if known else -1; missing = any(e not in known for e in range(top + 1))
            try: s.solve(**a); ok = True
            except Fail: raise
            except Exception as e: ok = False; why = '%s: %s' % (type(e).__name__, e)
            if not ok: CK(missing, 'solve fails on a complete instance (%s)' % why); CK(W.runs == runs, 'solve fails after running the solver'); accessors(); continue
            CK(not missing, 'instance with missing elements is solved'); CK(W.runs == runs + 1, 'solve does not run the solver once'); P.update(a)
            for k2, v in P.items(): CK(W.env.f[k2] == v, 'parameter %s is not passed to the solver' % k2)
            CK(not W.env.f['use_unit_costs'], 'unit costs used'); CK(sets(W.inst) == have and (W.inst.f['costs'] == costs or any(c != c for c in costs)), 'another instance is solved')
            w = W.warm.f['idxs']
            if prev is None: CK(w == [] or fromFile, 'a warm start is used although there is no previous solution or a new element appeared')
            elif not fromFile: CK(w == prev.f['idxs'] and W.warm.f['cost'] == prev.f['cost'], 'previous solution is not used as warm start')
            if w: cover('warm start')
            prev = W.last.f['sol']; res = W.last; fresh = False; accessors(); cover('solved')
        else:
            try: s.from_file('x/y', 'SCP') if step else s.from_file('x/y'); ok = True
            except Fail: raise
            except RuntimeError: ok = False
            except Exception as e: raise Fail('C22: from_file fails (%s: %s)' % (type(e).__name__, e))
            if not ok: cover('unreadable'); accessors(); continue
            CK(W.parsed.f['inst_path'] == 'x/y' and W.parsed.f['parser'] == ('SCP' if step else 'RAIL'), 'another file is read'); have = sets(W.fd.f['inst']); costs = list(W.fd.f['inst'].f['costs']); known = {e for c in have for e in c}; fromFile = True; i0 = W.fd.f['init_sol']; res = None; prev = None; got = s.get_solution()
            i = instance(s); CK(i is None or (sets(i) == have and i.f['costs'] == costs and i is not W.fd.f['inst']), 'instance is not the one of the file')
            if got: CK(got == i0.f['idxs'] and s.get_cost() == i0.f['cost'], 'solution is not the one of the file'); res = Eng(); res.f = dict(sol=i0); W.fd2 = res; W.fd = res; prev = i0
            cover('from file')
    obs(len(have)); obs(W.runs)
def h(): return hashlib.md5(repr(E.obs).encode()).hexdigest()[:16]
def one():
    E.inputs = []; E.obs = []; E.depth = 0; E.pins = {}; E.range = {}
    o = sys.stdout; sys.stdout = devnull
    try: test()
    except Prune: raise
    except Exception as e:
        if any(f.filename.startswith(SRC) for f in traceback.extract_tb(e.__traceback__)): raise Fail('C22: unexpected %s: %s' % (type(e).__name__, e))
        raise
    finally: sys.stdout = o
if mode == 'nat':
    E.given = [int(x) for x in open(sys.argv[4]).readline().split()]; E.covers = {}
    try: one()
    except Fail as f: print('FAIL ' + f.m); sys.exit(1)
    except Prune: print('PRUNE'); sys.exit(0)
    if os.environ.get('SX_TRACE'): print('inputs', E.inputs, file=sys.stderr)
    print('OBS ' + h()); sys.exit(0)
t0 = time.time(); lim = float(os.environ.get('SX_TIME', '60')); todo = [[]]; E.todo = todo; E.covers = {}; done = pruned = unk = 0; viol = []; samples = []; z3.set_param('smt.random_seed', 1); steps = 0
nw = int(os.environ.get('SX_WORKERS', '8'))
def explore(todo, deadline, limit=None):
    global done, pruned
    E.todo = todo; n = 0
    while todo and time.time() < deadline and not viol and (limit is None or len(todo) < limit):
        E.script = todo.pop(); E.s = z3.SimpleSolver(); n += 1
        def model():
            if check() != z3.sat: return None
            m = E.s.model(); return [m.eval(x, model_completion=True).as_long() for x in E.inputs]
        try: one(); done += 1; ok = True
        except Prune: pruned += 1; continue
        except Fail as f: viol.append(dict(msg=f.m, kind='assert', input=model() or [])); continue
        if done < 4 or done % 997 == 0: i = model(); i is not None and samples.append(dict(input=i, obs=h()))
explore(todo, t0 + lim, 64)
if todo and not viol:
    import multiprocessing as mp
    def work(part, q):
        global done, pruned
        done = pruned = 0; samples.clear(); E.queries = E.sat = E.unsat = E.unknown = E.branches = 0; E.solver_s = 0.; E.covers = {}
        explore(part, t0 + lim); q.put((done, pruned, E.queries, E.sat, E.unsat, E.unknown, E.branches, E.solver_s, E.covers, viol, samples, len(part)))
    ctx = mp.get_context('fork'); q = ctx.Queue(); parts = [[todo[k]] for k in range(len(todo))]; left = 0; run = []; pend = parts
    groups = [sum(parts[k::nw], []) for k in range(nw)]; ps = [ctx.Process(target=work, args=(g, q)) for g in groups if g]
    for p in ps: p.start()
    todo = []
    for p in ps:
        d, pr, a, b_, c, u, br, ss, cv, vi, sm, lf = q.get(); done += d; pruned += pr; E.queries += a; E.sat += b_; E.unsat += c; E.unknown += u; E.branches += br; E.solver_s += ss; viol += vi; samples += sm; left += lf
        for k, v in cv.items(): E.covers[k] = E.covers.get(k, 0) + v
    for p in ps: p.join()
    if left: todo = [None]
inc = (1 if todo else 0) | (2 if E.unknown else 0)
json.dump(dict(paths=done + pruned, completed=done, pruned=pruned, branches=E.branches, queries=E.queries, sat=E.sat, unsat=E.unsat, unknown=E.unknown, diverged=0, implied=0, solver_s=round(E.solver_s, 2), wall_s=round(time.time() - t0, 2), incomplete=inc, covers=E.covers, violations=viol[:3], samples=samples[:30], fns=list(range(8))), open(os.environ['SX_OUT'], 'w'))
