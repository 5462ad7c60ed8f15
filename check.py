#!/usr/bin/env python3
"""check.py ID: decides one property from /repo's current source.  Exit 0: held; exit 1: violated (VIOLATION line)."""
import sys, os, json, time, shutil, signal, resource, multiprocessing as mp
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
T0 = time.time()


LIMIT = 420          # seconds of processor time for one item


class TimeUp(BaseException):
    pass


def ring(*a):
    raise TimeUp


def worker(job):
    from sa import props
    signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
    try:
        return props.run_item(job)
    except TimeUp:
        return [], dict(fn=str(job[1]), error='time limit')
    except BaseException as e:
        import traceback
        return [], dict(fn=str(job[1]), error=traceback.format_exc()[-600:])


def main(argv):
    from sa import dump, props, known
    from sa.spec import Ob
    pid = argv[0]
    repo = os.environ.get('VERIF_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = props.PROPS[pid]
    keep = os.environ.get('VERIF_DUMP')
    if keep:
        paths, work = {'la': keep}, None
    else:
        paths, work = dump.dump(repo)
    try:
        # the crate under analysis is loaded before forking, so that workers share it
        props.setup(paths, repo)
        items = props.items(prop, tier)
        obs, infos = [], []
        if len(items) == 1:
            rs = [worker(items[0])]
        else:
            with mp.get_context('fork').Pool(min(8, len(items))) as pool:
                rs = pool.map(worker, items, chunksize=1)
        for o, i in rs:
            obs += o
            infos += i if isinstance(i, list) else [i]
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
    kn = known.load(pid)
    viol, hit, und = [], {}, []
    for o in obs:
        if o.st == 'viol':
            if o.key() in kn:
                hit[o.key()] = o
            else:
                viol.append(o)
        elif o.st == 'und':
            und.append(o)
    errs = [i for i in infos if i.get('error')]
    nok = sum(1 for o in obs if o.st == 'ok')
    floor = prop.get('floor', 1)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rep = os.path.join(ROOT, 'evidence', 'report-%s.json' % pid)
    json.dump(dict(property=pid, violations=[vars(o) for o in viol], undecided=[vars(o) for o in und], errors=errs), open(rep, 'w'), indent=1, default=str)
    ev = dict(property=pid, tier=tier, seed=seed, level=prop['level'], wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=prop.get('assumptions', []) + props.ASSUME)
    cov = dict(obligations=len(obs), discharged=nok + len(hit), undecided=len(und), known_findings=len(hit),
               checker_cmd='python3 check.py %s' % pid, trusted_base=props.TRUSTED, rule=prop['rule'],
               functions=[{k: i.get(k) for k in ('fn', 'where', 'accepts', 'summary', 'loops', 'secs', 'rules') if i.get(k) is not None} for i in infos],
               by_kind=count(obs), undecided_list=[o.key() + ': ' + o.detail[:200] for o in und][:40])
    if prop['level'] == 'other':
        cov['explanation'] = prop['rule']
    ev['coverage'] = cov
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k, o in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[k], o.where))
    print('%s: %d functions/rules, %d obligations, %d proved, %d undecided, %d violated, %.1f s' % (
        pid, len(infos), len(obs), nok, len(und), len(viol), time.time() - T0))
    for o in und[:20]:
        print('  undecided: %s at %s: %s' % (o.key(), o.where, o.detail[:300]))
    for i in errs:
        print('  error: %s: %s' % (i['fn'], i['error'][-300:]))
    if viol:
        for o in viol[:20]:
            print('  violated: %s at %s: %s%s' % (o.key(), o.where, o.detail[:600], ' witness %s' % o.witness if o.witness else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if os.environ.get('VERIF_STRICT') and (und or errs or nok < floor):
        print('STRICT: not everything proved (floor %d)' % floor)
        return 3
    return 0


def count(obs):
    d = {}
    for o in obs:
        k = '%s/%s' % (o.kind, o.st)
        d[k] = d.get(k, 0) + 1
    return d


if __name__ == '__main__':
    # deep terms need a deep stack, which only a new process image gets
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30 if hard == resource.RLIM_INFINITY else hard
    if soft != resource.RLIM_INFINITY and soft < want and not os.environ.get('VERIF_STACK'):
        os.environ['VERIF_STACK'] = '1'
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1:]))
