"""Entry point: run.py PROPERTY [--replay FILE] [--part NAME] [--scale X] [--jobs N]"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from lib import hypo  # noqa: E402

hypo.enable()

from lib import pbt  # noqa: E402


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('known', []) if e['property'] == prop]


def load_corpus(prop):
    path = os.path.join(VERIF, 'corpus', f'{prop}.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def run_shard(part, seed, shard, n, known):
    """Run n generated cases of one part.  Returns a dict of statistics."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky, Unsatisfiable

    st = {
        'part': part.name,
        'shard': shard,
        'evaluations': 0,
        'oracle_checks': 0,
        'discarded': 0,
        'nontrivial': set(),
        'labels': {},
        'samples': [],
        'known_hits': {},
        'failure': None,
        'unreproduced': None,
    }
    state = {'failed_at': None, 'best': None, 'viol': None}

    def record(case, ctx):
        st['evaluations'] += 1
        st['oracle_checks'] += ctx.sub
        for lab in ctx.labels:
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        for k in ctx.known_hits:
            st['known_hits'][k] = st['known_hits'].get(k, 0) + 1
        if ctx.nontrivial_:
            h = pbt.case_hash(case)
            if h not in st['nontrivial']:
                st['nontrivial'].add(h)
                if len(st['samples']) < 2:
                    s = json.dumps(case, default=pbt.jdefault)
                    if len(s) < 3000:
                        st['samples'].append(json.loads(s))
                    elif len(st['samples']) == 0:
                        st['samples'].append(s[:1500] + '...')

    def one(case):
        if state['failed_at'] is not None and time.time() - state['failed_at'] > part.shrink_budget:
            # shrinking budget used up: only the best known failure still fails
            if pbt.case_hash(case) == pbt.case_hash(state['best']):
                raise state['viol']
            return
        ctx = pbt.Ctx(known)
        try:
            pbt.run_case(part, case, ctx)
        except pbt.Discard:
            if state['failed_at'] is None:
                st['discarded'] += 1
            return
        except pbt.Violation as v:
            if state['failed_at'] is None:
                state['failed_at'] = time.time()
                st['evaluations'] += 1
                st['first_failure'] = v.msg
            state['best'] = case
            state['viol'] = v
            raise
        if state['failed_at'] is None:
            record(case, ctx)

    if part.setup is not None:
        part.setup()

    try:
        if part.enumerate_cases is not None:
            for i, case in enumerate(part.enumerate_cases()):
                if i % part.nshards == shard:
                    one(case)
        if n > 0 and part.strategy is not None:
            phases = [Phase.generate] + ([Phase.shrink] if part.shrink else [])

            @hypothesis.seed(pbt.shard_seed(seed, part.name, shard))
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=phases,
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )
            @given(part.strategy)
            def t(case):
                one(case)

            t()
    except pbt.Violation:
        pass
    except Flaky:
        pass
    except Unsatisfiable:
        st['error'] = f'{part.name}: generator unsatisfiable'
    except BaseException as exc:  # noqa: BLE001
        if state['viol'] is None:
            st['error'] = f'{part.name}: harness error\n{traceback.format_exc()}'

    if state['viol'] is not None:
        case = state['best']
        # reproduce once outside hypothesis
        ctx = pbt.Ctx(known)
        try:
            pbt.run_case(part, case, ctx)
            st['unreproduced'] = {'case': case, 'msg': state['viol'].msg}
        except pbt.Violation as v:
            st['failure'] = {'case': case, 'msg': v.msg, 'key': v.key}
        except BaseException:  # noqa: BLE001
            st['error'] = f'{part.name}: harness error on re-run\n{traceback.format_exc()}'
    st['nontrivial'] = sorted(st['nontrivial'])
    return st


def limit_memory(gb=4):
    """A case that asks for unreasonable memory is discarded instead of endangering the sandbox."""
    import resource

    lim = gb << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def worker(idx, task_q, out_q, parts, seed, known, scratch):
    d = os.path.join(scratch, f'w{idx}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    tempfile.tempdir = d
    os.environ['TMPDIR'] = d
    # OpenMDAO writes its outputs to one directory for all processes otherwise
    os.environ['OPENMDAO_WORKDIR'] = d
    fd = os.open(os.path.join(d, 'log'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    limit_memory()
    while True:
        task = task_q.get()
        if task is None:
            out_q.put(None)
            return
        name, shard, n = task
        t0 = time.time()
        try:
            st = run_shard(parts[name], seed, shard, n, known)
        except BaseException:  # noqa: BLE001
            st = {'part': name, 'shard': shard, 'error': traceback.format_exc()}
        st['wall'] = time.time() - t0
        # keep the payload JSON-able so that the queue never fails to pickle it
        out_q.put(json.dumps(st, default=pbt.jdefault))
        try:
            os.truncate(fd, 0)
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    prop = args.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    budget = args.budget or (540.0 if tier == 'quick' else 3300.0)

    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    os.chdir(scratch)
    os.environ['OPENMDAO_WORKDIR'] = scratch
    code = 2
    try:
        code = _main(args, prop, tier, seed, budget, scratch, t0)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _main(args, prop, tier, seed, budget, scratch, t0):
    # import the code under test with its chatter sent to a scratch log
    sys.stdout.flush()
    mod = importlib.import_module(f'checks.{prop}')
    parts = {p.name: p for p in mod.PARTS}
    known_entries = load_known(prop)
    known = [e['key'] for e in known_entries]

    replays = os.path.join(VERIF, 'replays')

    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        part = parts[r['part']]
        if part.setup:
            part.setup()
        ctx = pbt.Ctx(known)
        try:
            pbt.run_case(part, r['case'], ctx)
        except pbt.Violation as v:
            print(v.msg)
            if args.v:
                traceback.print_exc()
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        print('replay: property held on this case')
        return 0

    if args.part:
        parts = {k: v for k, v in parts.items() if k in args.part.split(',')}

    # ---- build the task list
    tasks = []
    for p in parts.values():
        n = int(round(p.n[tier] * args.scale))
        shards = p.shards or max(1, min(16, n // 4 or 1))
        p.nshards = shards
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            if k > 0 or p.enumerate_cases is not None:
                tasks.append((p.weight * k, (p.name, s, k)))
    tasks.sort(key=lambda t: -t[0])

    ctx_mp = mp.get_context('fork')
    task_q, out_q = ctx_mp.Queue(), ctx_mp.Queue()
    jobs = min(args.jobs, max(1, len(tasks)))

    # ---- replay the corpus and the known findings first (in a forked child per part group)
    corpus = load_corpus(prop)
    results, failures, errors = [], [], []
    corpus_n = 0
    known_lines = []

    def corpus_child(conn):
        d = os.path.join(scratch, 'corpus')
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        tempfile.tempdir = d
        os.environ['OPENMDAO_WORKDIR'] = d
        fd = os.open(os.path.join(d, 'log'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        out = {'fail': [], 'err': [], 'n': 0, 'known': []}
        for c in corpus:
            if c['part'] not in parts:
                continue
            p = parts[c['part']]
            if p.setup:
                p.setup()
            out['n'] += 1
            ctx = pbt.Ctx(known)
            try:
                pbt.run_case(p, c['case'], ctx)
            except pbt.Violation as v:
                out['fail'].append({'part': p.name, 'case': c['case'], 'msg': v.msg, 'key': v.key})
            except pbt.Discard:
                pass
            except BaseException:  # noqa: BLE001
                out['err'].append(traceback.format_exc())
        for e in known_entries:
            if e.get('part') not in parts:
                continue
            p = parts[e['part']]
            if p.setup:
                p.setup()
            ctx = pbt.Ctx([])
            ctx.known = set(known) - {e['key']}
            still = None
            try:
                pbt.run_case(p, e['case'], ctx)
                still = False
            except pbt.Violation as v:
                still = v.key == e['key']
            except BaseException:  # noqa: BLE001
                out['err'].append(traceback.format_exc())
            out['known'].append([e['key'], still])
        conn.send(json.dumps(out, default=pbt.jdefault))
        conn.close()
        os._exit(0)

    known_state = {}
    corpus_proc = None
    if corpus or known_entries:
        pr, pc = ctx_mp.Pipe(duplex=False)
        corpus_proc = ctx_mp.Process(target=corpus_child, args=(pc,))
        corpus_proc.start()
        pc.close()

    procs = []
    for i in range(jobs):
        pproc = ctx_mp.Process(
            target=worker, args=(i, task_q, out_q, parts, seed, known, scratch), daemon=True
        )
        pproc.start()
        procs.append(pproc)
    for _, t in tasks:
        task_q.put(t)
    for _ in procs:
        task_q.put(None)

    done, finished, timed_out = 0, 0, False
    while finished < jobs:
        left = budget - (time.time() - t0)
        if left <= 0:
            timed_out = True
            break
        try:
            item = out_q.get(timeout=min(left, 5.0))
        except Exception:  # queue.Empty
            if not any(p.is_alive() for p in procs):
                try:
                    item = out_q.get(timeout=1.0)
                except Exception:
                    break
            else:
                # a worker that died (e.g. ended for memory) never sends its sentinel
                dead = sum(1 for p in procs if not p.is_alive() and p.exitcode not in (0, None))
                if finished + dead >= jobs:
                    break
                continue
        if item is None:
            finished += 1
            continue
        st = json.loads(item)
        done += 1
        results.append(st)
        if args.v:
            print(st['part'], st['shard'], 'n=', st.get('evaluations'), 'wall=%.1f' % st['wall'])
        if st.get('error'):
            errors.append(st['error'])
        if st.get('failure'):
            failures.append(dict(st['failure'], part=st['part']))
            break  # one violation is enough; report it at once
    for p in procs:
        if p.is_alive():
            p.terminate()
    lost = len(tasks) - done if not failures and not timed_out else 0

    if corpus_proc is not None:
        try:
            if pr.poll(max(1.0, budget - (time.time() - t0)) if not failures else 20.0):
                out = json.loads(pr.recv())
                corpus_n = out['n']
                for f in out['fail']:
                    failures.append(f)
                errors.extend(out['err'])
                known_state = dict((k, s) for k, s in out['known'])
        except EOFError:
            errors.append('corpus replay process died')
        if corpus_proc.is_alive():
            corpus_proc.terminate()

    # ---- report
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    labels, samples, nontriv = {}, [], set()
    per_part = {}
    hits = {}
    evals = oracle = disc = 0
    unrepro = []
    for st in results:
        if 'evaluations' not in st:
            continue
        evals += st['evaluations']
        oracle += st['oracle_checks']
        disc += st['discarded']
        pp = per_part.setdefault(
            st['part'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {}, 'discarded': 0}
        )
        pp['evaluations'] += st['evaluations']
        pp['discarded'] += st['discarded']
        new = {f"{st['part']}:{h}" for h in st['nontrivial']}
        pp['distinct_nontrivial'] += len(new - nontriv)
        nontriv |= new
        for k, v in st['labels'].items():
            pp['labels'][k] = pp['labels'].get(k, 0) + v
        for k, v in st['known_hits'].items():
            hits[k] = hits.get(k, 0) + v
        if st['samples'] and sum(1 for s in samples if s['part'] == st['part']) < 2:
            samples.append({'part': st['part'], 'case': st['samples'][0]})
        if st.get('unreproduced'):
            unrepro.append({'part': st['part'], **st['unreproduced']})

    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontriv),
            'rule': getattr(mod, 'RULE', ''),
            'samples': samples[:12] or ['(no non-trivial sample recorded)'],
            'oracle_comparisons': oracle,
            'discarded': disc,
            'regression_corpus_cases': corpus_n,
            'parts': per_part,
            'known_finding_hits': hits,
            'unreproduced_failures': len(unrepro),
            'shards_unfinished': len(tasks) - done,
            'time_budget_hit': timed_out,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=pbt.jdefault)

    for e in known_entries:
        if known_state.get(e['key']) or hits.get(e['key']):
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
        elif not failures and not args.part:
            print(f"note: listed finding no longer reproduces: {e['key']}")

    print(
        f'{prop} {tier} seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, '
        f'{oracle} oracle comparisons, {disc} discarded, {corpus_n} corpus, '
        f'{time.time() - t0:.1f}s'
    )
    if args.v:
        print(json.dumps(per_part, indent=1))
    for u in unrepro:
        print('note: unreproduced failure in', u['part'], u['msg'][:300])
    if failures:
        os.makedirs(replays, exist_ok=True)
        for f in failures[:3]:
            rp = os.path.join(replays, f"{prop}-{f['part']}-{pbt.case_hash(f['case'])}.json")
            with open(rp, 'w') as fh:
                json.dump(
                    {'property': prop, 'part': f['part'], 'case': f['case'], 'msg': f['msg'],
                     'key': f.get('key')},
                    fh, indent=1, default=pbt.jdefault,
                )
            print(f"{f['part']}: {f['msg'][:1500]}")
            print(f"  key: {f.get('key')}")
            print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if errors:
        for e in errors[:5]:
            print('ERROR:', e[-3000:])
        return 2
    if lost:
        print(f'ERROR: {lost} shards were lost (a worker process died)')
        return 2
    return 0


if __name__ == '__main__':
    main()
