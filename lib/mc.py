"""Shared machinery for Python checks: counters, evidence, known findings, violation reporting, worker processes."""
import hashlib, itertools, json, os, sys, time, traceback
from multiprocessing import get_context
REPO, VERIF, SCRATCH = os.environ.get('MC_REPO', '/repo'), os.environ.get('MC_VERIF', '/verif'), os.environ.get('MC_SCRATCH', '/tmp')
TIER = os.environ.get('VERIF_TIER', 'quick'); THOROUGH = TIER == 'thorough'; SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.dont_write_bytecode = True
_real_time = time.time
class Violation(Exception):
    def __init__(self, key, what, history): super().__init__(what); self.key, self.what, self.history = key, what, history
class Check:
    def __init__(self, pid, level):
        self.id, self.level, self.t0 = pid, level, _real_time()
        self.states = self.evaluations = self.nontrivial = 0; self.samples = []; self.extra = {}; self.assumptions = []; self.rule = ''; self.viol = []
        f = os.path.join(VERIF, 'known_findings.jsonl'); self.known = {}
        if os.path.exists(f):
            for l in open(f):
                if l.strip().startswith('{'):
                    k = json.loads(l)
                    if k['property'] == pid and k.get('status') != 'fixed': self.known[k['key']] = k['what']
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def violation(self, key, what, history): raise Violation(key, what, history)
    def sharded(self, work, n=8):
        """work(check, mine) in n processes; mine(i) tells which items of the enumeration are this worker's"""
        ctx = get_context('fork'); q = ctx.Queue(); ps = []
        def child(w):
            os.environ['MC_SHARD'] = str(w); scr = os.path.join(SCRATCH, f's{w}'); os.makedirs(scr, exist_ok=True); out = {'w': w, 'viol': [], 'err': None}
            try: work(self, lambda i: i % n == w, scr)
            except Violation as v: out['viol'].append((v.key, v.what, v.history))
            except BaseException as e:
                out['err'] = traceback.format_exc(); v = crash(e)
                if v: out['viol'].append(v)
            out.update(states=self.states, evaluations=self.evaluations, nontrivial=self.nontrivial, samples=self.samples[:1]); q.put(json.dumps(out, default=repr)); q.close(); q.join_thread(); os._exit(0)
        for w in range(n):
            p = ctx.Process(target=child, args=(w,)); p.start(); ps.append(p)
        got = 0; errs = []
        while got < n:
            try: o = json.loads(q.get(timeout=1))
            except Exception:
                if all(not p.is_alive() for p in ps) and q.empty(): errs.append('a worker died'); break
                continue
            got += 1
            if o['err']: errs.append(o['err'])
            for f in ('states', 'evaluations', 'nontrivial'): setattr(self, f, getattr(self, f) + o[f])
            for s in o['samples']: self.sample(s)
            self.viol += o['viol']
        for p in ps: p.join(5)
        if errs and not self.viol: sys.stderr.write('check error: ' + errs[0] + '\n'); os._exit(3)
    def finish(self):
        seen, fresh = [], []
        for k, what, h in self.viol:
            if k in self.known:
                if k not in seen: seen.append(k); print(f'KNOWN-FINDING: property={self.id} {self.known[k]}')
            else: fresh.append((k, what, h))
        for k, what, h in fresh if os.environ.get('MC_CONTINUE') else fresh[:1]:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True); p = os.path.join(VERIF, 'replays', f'{self.id}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json')
            json.dump({'property': self.id, 'key': k, 'what': what, 'tier': TIER, 'seed': SEED, 'replay_cmd': f'VERIF_TIER={TIER} ./run.sh {self.id}', 'history': h}, open(p, 'w'), indent=1, default=repr)
            print(f'  {what}'); print(f'VIOLATION property={self.id} replay={p}')
        cov = {'exhaustive': not fresh, 'evaluations': self.evaluations, 'distinct_nontrivial': self.nontrivial, 'states': self.states, 'rule': self.rule, 'samples': self.samples or ['(none recorded)'], **self.extra}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump({'property': self.id, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': _real_time() - self.t0, 'violations': len(fresh), 'known_findings_seen': seen}, open(os.path.join(VERIF, 'evidence', f'{self.id}.json'), 'w'), indent=1, default=repr)
        if not fresh: print(f'OK property={self.id} ' + json.dumps({'states': self.states, 'evaluations': self.evaluations, 'nontrivial': self.nontrivial, **self.extra}) + f' wall={_real_time() - self.t0:.1f}s')
        sys.stdout.flush(); os._exit(1 if fresh else 0)
def crash(e):
    """an exception out of the code under test (its frame is the innermost one outside the standard library): a violation"""
    if isinstance(e, (MemoryError, ImportError, SyntaxError, KeyboardInterrupt)) or isinstance(e, OSError) and e.errno in (12, 23, 24, 28): return None
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((REPO + '/', VERIF + '/'))]
    if fr and fr[-1].filename.startswith(REPO + '/'): return (f'crash:{type(e).__name__}', f'the code under test raised {type(e).__name__}: {str(e)[:300]} ({fr[-1].filename}:{fr[-1].lineno}) on an input it handles', {'stack': traceback.format_exc().splitlines()[-14:]})
    if fr and isinstance(e, (KeyError, IndexError, ValueError, FileNotFoundError)): return (f'crash:{type(e).__name__}', f'the code under test returned or left something the check cannot read: {type(e).__name__} {str(e)[:200]} ({os.path.basename(fr[-1].filename)}:{fr[-1].lineno})', {'stack': traceback.format_exc().splitlines()[-14:]})
    return None
def main(fn):
    try: fn()
    except Exception: traceback.print_exc(); sys.stderr.flush(); os._exit(3)
def sequences(n, length): return itertools.product(range(n), repeat=length)
