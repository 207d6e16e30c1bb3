"""Frame of a check: collects obligations, writes the evidence, prints the verdict.

usage: python3 engine/check.py <property id>
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)

_progs = {}


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.obl = {}            # key -> [ok, bad, undecided]
        self.bad = {}            # key -> message
        self.und = {}            # key -> message
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assume = []
        self.trusted = []

    # ---- programs
    def prog(self, kind):
        p = _progs.get(kind)
        if p is None:
            import build
            p = _progs[kind] = build.load(kind)
            p.bodies = len(p.fns)
        return p

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    # ---- obligations.  key: stable identity of the construct (no line numbers)
    def ok(self, key, where=None):
        self.obl.setdefault(key, [0, 0, 0])[0] += 1
        if where and len(self.samples) < 12:
            self.samples.append('%s: %s' % (where, key))

    def violation(self, key, msg):
        self.obl.setdefault(key, [0, 0, 0])[1] += 1
        self.bad.setdefault(key, msg)

    def undecided(self, key, msg):
        self.obl.setdefault(key, [0, 0, 0])[2] += 1
        self.und.setdefault(key, msg)

    def require(self, key, cond, msg, where=None):
        if cond:
            self.ok(key, where)
        else:
            self.violation(key, msg)

    # ---- result
    def finish(self, crash=None):
        known = load_known(self.pid)
        new = {k: m for k, m in self.bad.items() if k not in known}
        hit = {k: m for k, m in self.bad.items() if k in known}
        tot = sum(1 for v in self.obl.values())
        dis = sum(1 for v in self.obl.values() if not v[1] and not v[2])
        cov = {
            'explanation': ' '.join(self.rules),
            'obligations': tot,
            'discharged': dis,
            'undecided': sum(1 for v in self.obl.values() if v[2] and not v[1]),
            'instances': sum(sum(v) for v in self.obl.values()),
            'samples': self.samples,
            'analysed': self.counts,
            'trusted_base': self.trusted or ['rustc MIR of the analysed crate', 'engine/*.py'],
        }
        if self.und:
            cov['undecided_list'] = ['%s: %s' % (k, m) for k, m in list(self.und.items())[:20]]
        if crash:
            cov['crash'] = crash
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (
            self.pid, tot, dis, cov['undecided'], len(self.bad), time.time() - self.t0))
        for k, m in self.und.items():
            print('  undecided %s: %s' % (k, m))
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, hit[k]))
        if new:
            rp = VERIF + '/evidence/%s.violation.json' % self.pid
            with open(rp, 'w') as f:
                json.dump([{'property': self.pid, 'construct': k, 'what': m} for k, m in new.items()], f, indent=1)
            for k, m in list(new.items())[:20]:
                print('  violated %s: %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    """known_findings.txt: 'known: property=<id> <construct key> -- <what>' (fixed: lines suppress nothing)"""
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                body = l.split(' ', 2)[2]
                k = body.split(' -- ')[0].strip()
                out[k] = body
    return out


def main():
    pid = sys.argv[1]
    c = Check(pid)
    crash = None
    try:
        m = importlib.import_module('checks.' + pid.lower())
        m.run(c)
    except Exception as e:
        crash = ''.join(traceback.format_exception(e))[-3000:]
        c.undecided('analysis', 'not completed: %s' % (str(e)[:500] or type(e).__name__))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    return c.finish(crash)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 0)
