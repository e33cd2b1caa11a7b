"""Running harness shards, collecting their reports, writing evidence, deciding the exit status."""
import os, sys, json, time, subprocess, signal, hashlib, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF

def load_known():
    """known-findings.txt:  open: property=<id> key=<key> <what fails>   |   fixed: property=<id> <commit> <what failed>"""
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res

class Check:
    def __init__(self, pid, level):
        self.pid = pid; self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.counts = {}; self.samples = []; self.viol = {}; self.notes = []; self.assumptions = []
        self.rule = ''; self.extra = {}
        self.work = os.path.join(B.BROOT, 'work-' + pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays')
        os.makedirs(self.replays, exist_ok=True)
    @property
    def thorough(self):
        return self.tier == 'thorough'
    def add_count(self, k, v):
        self.counts[k] = self.counts.get(k, 0) + v
    def violation(self, key, msg, replay):
        key = re.sub(r'\s+', '_', key)
        if key not in self.viol:
            self.viol[key] = (msg, replay)
    # ---- harness shards
    def run_shards(self, exe, args=(), n=8, timeout=800, env=None, mem_gb=None, cwd=True, label=''):
        """Runs n processes `exe --shard i/n --out F [--thorough] args`, merges their reports."""
        stop = os.path.join(self.work, 'stop'); kn = os.path.join(self.work, 'known')
        with open(kn, 'w') as f:
            for (pid, key) in load_known():
                if pid == self.pid: f.write(key + '\n')
        def found(): # seconds since the first violation which is not a known finding
            try: return time.time() - os.stat(stop).st_mtime
            except OSError: return 0
        def one(i):
            d = os.path.join(self.work, '%s%s-%d' % (os.path.basename(exe), label, i))
            os.makedirs(d, exist_ok=True)
            out = os.path.join(d, 'report.jsonl'); cur = os.path.join(d, 'current')
            cmd = [exe, '--shard', '%d/%d' % (i, n), '--out', out, '--cur', cur] + (['--thorough'] if self.thorough else []) + list(args)
            e = dict(os.environ); e.update(env or {}); e['VK_DIR'] = d; e['VK_STOP'] = stop; e['VK_KNOWN'] = kn
            t = time.time()
            if found() > 40: return cmd, d, out, cur, 'stopped', 0
            with open(os.path.join(d, 'stdout'), 'wb') as fo, open(os.path.join(d, 'stderr'), 'wb') as fe:
                p = subprocess.Popen(cmd, cwd=d, stdout=fo, stderr=fe, env=e, start_new_session=True)
                try:
                    while True:
                        try: rc = p.wait(timeout=2); break
                        except subprocess.TimeoutExpired:
                            if found() > 60: rc = 'stopped'; break
                            if time.time() - t > timeout: rc = 'timeout'; break
                finally:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait()
            return cmd, d, out, cur, rc, time.time() - t
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(n)))
        for cmd, d, out, cur, rc, dt in res:
            ended = False
            if os.path.exists(out):
                for l in open(out, errors='replace'):
                    try: r = json.loads(l)
                    except ValueError: continue
                    t = r.get('t')
                    if t == 'count': self.add_count(r['k'], r['v'])
                    elif t == 'sample':
                        if len(self.samples) < 12: self.samples.append(r['v'])
                    elif t == 'viol': self.violation(r['key'], r['msg'], {'cmd': cmd, 'case': r.get('case', ''), 'detail': r.get('detail', '')})
                    elif t == 'note': 
                        if r['v'] not in self.notes: self.notes.append(r['v'])
                    elif t == 'end': ended = True
            if not ended and rc != 'stopped':
                case = ''
                if os.path.exists(cur):
                    case = open(cur, 'rb').read().split(b'\0')[0].decode(errors='replace')
                tail = open(os.path.join(d, 'stderr'), errors='replace').read()[-600:]
                kind = 'timeout' if rc == 'timeout' else ('signal%d' % -rc if rc < 0 else 'exit%d' % rc)
                self.violation('harness-%s:%s' % (kind, case[:120]),
                    'the code under test ended the run (%s) in case "%s": %s' % (kind, case, tail), {'cmd': cmd, 'case': case, 'stderr': tail})
    # ---- end
    def finish(self):
        known = load_known()
        nviol = 0; lines = []
        for key, (msg, replay) in self.viol.items():
            if (self.pid, key) in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[(self.pid, key)]))
                continue
            nviol += 1
            if nviol <= 20:
                path = os.path.join(self.replays, '%s-%s.json' % (self.pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
                json.dump({'property': self.pid, 'key': key, 'message': msg, 'replay': replay}, open(path, 'w'), indent=1)
                print('  %s: %s' % (key, msg[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = dict(self.counts)
        for k in ('evaluations', 'distinct_nontrivial') if self.level in ('exploration', 'fault_enumeration') else ('states', 'transitions', 'traces_validated_against_impl'):
            cov.setdefault(k, 0)
        cov['rule'] = self.rule
        cov['samples'] = self.samples
        cov.update(self.extra)
        if self.notes: cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %s, %d violations, %.1fs' % (self.pid, self.tier, ', '.join('%s=%s' % kv for kv in self.counts.items()), nviol, time.time() - self.t0))
        return 1 if nviol else 0
