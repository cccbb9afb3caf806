"""Runs a check: builds the code under test, drives it from several worker
processes for a bounded time, lets the check's oracle judge every execution,
and writes the evidence of what was observed."""
import os, sys, json, time, random, traceback, multiprocessing as mp, queue, signal
from collections import Counter
import drv
import model
from drv import HarnessError, VERIF
from gen import Rng

FINDINGS = os.path.join(VERIF, 'known-findings.txt')
REPLAYS = os.path.join(VERIF, 'evidence', 'replay')


class Inconclusive(Exception):
    pass


class Bad(Exception):
    """The oracle saw a violation.  signature: what identifies it."""

    def __init__(self, msg, signature='', **detail):
        super().__init__(msg)
        self.msg, self.signature, self.detail = msg, signature, detail


class Skip(Exception):
    """Not judged (the oracle does not know)."""


class Check:
    id = None
    variants = ('plain',)
    workers = 8
    quick_s, thorough_s = 25, 420
    technique = ''
    rule = ''
    assumptions = ()
    # smallest amount of observation that counts as an answer
    minimum = 200
    deadline = float('inf')

    def __init__(self, binaries):
        self.bin = binaries

    def setup(self, wid):
        """In each worker."""
        self.obs = drv.Observer(self.bin['plain']) if 'plain' in self.bin else None

    def teardown(self):
        if getattr(self, 'obs', None):
            self.obs.stop()

    def ask(self, fields, obs=None):
        r = (obs or self.obs).ask(fields)
        if 'lost' in r:
            raise Inconclusive(r['lost'])
        return r

    def corpus(self):
        """Fixed cases, always run."""
        return []

    def gen(self, r):
        raise NotImplementedError

    def judge(self, case):
        """Return a list of feature strings (what was observed), or raise
        Bad / Skip / Inconclusive."""
        raise NotImplementedError

    def nontrivial(self, case, feats):
        return bool(feats)

    def key(self, case):
        return drv.digest(json.dumps(case, sort_keys=True))

    def shrinkable(self, case):
        return 'src' if 'src' in case else None

    def extra_evidence(self):
        return {}


def load_findings(prop):
    out = []
    try:
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith('finding: '):
                    d = json.loads(line[len('finding: '):])
                    if d['property'] == prop:
                        out.append(d)
    except OSError:
        pass
    return out


def is_bad(check, case):
    try:
        check.judge(case)
    except Bad as b:
        return b
    except (Skip, Inconclusive):
        return None
    except Exception:
        return None
    return None


def shrink(check, case, bad, seconds):
    """Make the text of a failing case smaller while it still fails."""
    field = check.shrinkable(case)
    if not field or not isinstance(case.get(field), str):
        return case, bad
    end = time.time() + seconds
    text = case[field]
    n = 2
    while len(text) > 1 and time.time() < end:
        size = max(1, len(text) // n)
        i, changed = 0, False
        while i < len(text) and time.time() < end:
            cand = text[:i] + text[i + size:]
            c2 = dict(case)
            c2[field] = cand
            b = is_bad(check, c2)
            if b is not None and b.signature == bad.signature:
                text, case, bad, changed = cand, c2, b, True
            else:
                i += size
        if not changed:
            if size == 1:
                break
            n = min(len(text), n * 2)
    return case, bad


def worker(cls, binaries, wid, nworkers, seed, tier, deadline, out, stop, known, cap):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    st = dict(eval=0, skipped=Counter(), inconclusive=Counter(), feats=Counter(), distinct=0, samples=[], known=Counter(), bytes=0)
    seen = set()
    check = None
    found = None
    try:
        check = cls(binaries)
        check.tier = tier
        check.deadline = deadline
        check.setup(wid)
        corpus = check.corpus()
        i = 0
        while time.time() < deadline and not stop.is_set() and st['eval'] < cap:
            ci = i * nworkers + wid
            if ci < len(corpus):
                case = corpus[ci]
            else:
                r = Rng('%s:%s:%d:%d' % (seed, cls.id, wid, i))
                try:
                    case = check.gen(r)
                except Skip as e:
                    st['skipped'][str(e)[:40]] += 1
                    i += 1
                    continue
            i += 1
            try:
                feats = check.judge(case)
            except (Skip, model.Unsure) as e:
                st['skipped'][str(e)[:40]] += 1
                continue
            except Inconclusive as e:
                st['inconclusive'][str(e)[:60]] += 1
                continue
            except Bad as b:
                if b.signature and b.signature in known:
                    st['known'][b.signature] += 1
                    continue
                found = (case, b)
                break
            st['eval'] += 1
            for f in feats:
                st['feats'][f] += 1
            if check.nontrivial(case, feats):
                k = check.key(case)
                if k not in seen:
                    seen.add(k)
                    if len(st['samples']) < 2 and wid < 3 and len(json.dumps(case)) < 1500:
                        st['samples'].append(case)
        st['distinct'] = len(seen)
        if found:
            stop.set()
            case, b = found
            case, b = shrink(check, case, b, 15)
            out.put(('bad', wid, case, b.msg, b.signature, b.detail))
        st['extra'] = check.extra_evidence()
        check.teardown()
        out.put(('done', wid, st))
    except BaseException:
        try:
            if check:
                check.teardown()
        except Exception:
            pass
        out.put(('error', wid, traceback.format_exc()))


def run(cls, seed, tier, replay=None, seconds=None):
    t0 = time.time()
    binaries = {v: drv.build(v) for v in cls.variants}
    built = time.time() - t0
    check = cls(binaries)
    check.tier = tier
    if replay:
        check.setup(cls.workers - 1)
        with open(replay) as f:
            case = json.load(f)['case']
        try:
            print('ok:', check.judge(case))
            return 0
        except Bad as b:
            print('VIOLATION property=%s replay=%s' % (cls.id, replay))
            print(b.msg)
            return 1
        except (Skip, model.Unsure) as e:
            print('not judged:', e)
            return 0
        finally:
            check.teardown()
    # Known findings first: each is re-observed on its own input.
    known = set()
    findings = load_findings(cls.id)
    known_lines = []
    if findings:
        check.setup(0)
        for f in findings:
            b = is_bad(check, f['case'])
            if b is not None and b.signature == f['signature']:
                known.add(f['signature'])
                known_lines.append('KNOWN-FINDING: property=%s %s' % (cls.id, f['what']))
        check.teardown()
    for l in known_lines:
        print(l, flush=True)
    limit = seconds or (cls.quick_s if tier == 'quick' else cls.thorough_s)
    start = time.time()
    deadline = start + limit
    ctx = mp.get_context('fork')
    out, stop = ctx.Queue(), ctx.Event()
    cap = 10 ** 9
    procs = [ctx.Process(target=worker, args=(cls, binaries, w, cls.workers, seed, tier, deadline, out, stop, known, cap), daemon=True)
             for w in range(cls.workers)]
    for p in procs:
        p.start()
    done, bads, errors = [], [], []
    waiting = set(range(cls.workers))
    hard = deadline + 300
    while waiting:
        try:
            m = out.get(timeout=2)
        except queue.Empty:
            for w in list(waiting):
                if not procs[w].is_alive() and out.empty():
                    waiting.discard(w)
                    errors.append('worker %d died' % w)
            if time.time() > hard:
                errors.append('workers did not finish')
                break
            continue
        if m[0] == 'bad':
            bads.append(m)
        elif m[0] == 'done':
            done.append(m[2])
            waiting.discard(m[1])
        else:
            errors.append(m[2])
            waiting.discard(m[1])
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    feats, skipped, inc, kn = Counter(), Counter(), Counter(), Counter()
    ev = distinct = 0
    samples, extra = [], {}
    for d in done:
        feats.update(d['feats'])
        skipped.update(d['skipped'])
        inc.update(d['inconclusive'])
        kn.update(d['known'])
        ev += d['eval']
        distinct += d['distinct']
        samples += d['samples']
        for k, v in d.get('extra', {}).items():
            extra[k] = extra.get(k, 0) + v
    evidence = {
        'property': cls.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': dict({
            'evaluations': ev, 'distinct_nontrivial': distinct, 'rule': cls.rule, 'samples': samples[:4],
            'observed': dict(feats.most_common(80)), 'not_judged': dict(skipped.most_common(30)),
            'inconclusive': dict(inc.most_common(10)), 'known_findings_seen': dict(kn),
            'build_s': round(built, 1), 'workers': cls.workers,
        }, **extra),
        'assumptions': list(cls.assumptions), 'wall_s': round(time.time() - t0, 1), 'violations': len(bads),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cls.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if bads:
        os.makedirs(REPLAYS, exist_ok=True)
        for _, wid, case, msg, sig, detail in bads[:3]:
            path = os.path.join(REPLAYS, '%s-%s.json' % (cls.id, drv.digest(json.dumps(case, sort_keys=True))[:12]))
            with open(path, 'w') as f:
                json.dump({'property': cls.id, 'case': case, 'message': msg, 'signature': sig, 'detail': detail}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (cls.id, path))
            print('  ' + msg[:1500].replace('\n', '\n  '))
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors[:3]) + '\n')
        return 2
    if ev < cls.minimum:
        sys.stderr.write('%s: only %d executions were judged: no answer\n' % (cls.id, ev))
        return 2
    print('%s: held on %d executions (%d distinct non-trivial), %d not judged, %d inconclusive; %.0f s' %
          (cls.id, ev, distinct, sum(skipped.values()), sum(inc.values()), time.time() - t0))
    return 0
