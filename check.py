#!/usr/bin/env python3
"""Decide one property of rabe-bn by static analysis of /repo's current source.

usage: check.py --property Cxx [--tier quick|thorough] [--jobs N]
Every run compiles /repo's working tree to MIR (extract.sh), evaluates the obligations of the
property on that MIR and writes evidence/<id>.json.  Exit 0: every obligation discharged; exit 1
with a VIOLATION line otherwise (an obligation that cannot be discharged counts as violated).
"""
import argparse, hashlib, importlib, json, multiprocessing, os, re, resource, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(60000)
WORK = os.path.join(HERE, '.work')
REPO = '/repo'


def tree_hash(cfg):
    h = hashlib.sha256()
    h.update(cfg.encode())
    files = []
    for base in (os.path.join(REPO, 'src'), os.path.join(HERE, 'driver'), os.path.join(HERE, 'roots')):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != 'target')
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(HERE, 'extract.sh')]
    for f in files:
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def extract(cfg):
    """path of the MIR dump of /repo's current tree for one build configuration"""
    os.makedirs(WORK, exist_ok=True)
    key = tree_hash(cfg)
    out = os.path.join(WORK, 'dump-%s-%s.json' % (cfg, key))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['bash', os.path.join(HERE, 'extract.sh'), cfg, tmp, os.path.join(WORK, 'build')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None, r.stdout.decode(errors='replace')
        for f in os.listdir(WORK):
            if f.startswith('dump-%s-' % cfg) and f.endswith('.json'):
                try:
                    os.unlink(os.path.join(WORK, f))
                except OSError:
                    pass
        os.rename(tmp, out)
    return out, ''


from check_progs import PROGS


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_one(task):
    cfg, mod, fn, args, limit = task
    import ob
    import poly
    from interp import Undecided
    t = time.time()
    name = '%s(%s)[%s]' % (fn, ', '.join(map(str, args)), cfg)
    ctx = ob.Ctx(PROGS[cfg], cfg, fn + '(' + ', '.join(map(str, args)) + ')')

    def onalarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        poly.reset()
        getattr(importlib.import_module(mod), fn)(ctx, *args)
    except Undecided as e:
        c = [x for x in getattr(e, 'ctx', [])]
        where = next((x for x in c if 'rabe_bn' in str(x)), c[0] if c else '?')
        where = re.sub(r':\d+\b', '', str(where))
        ctx.fail(where, 'not decided by the analysis', '%s; at %s' % (e, '; '.join(map(str, c[:6]))))
    except ob.Missing as e:
        ctx.fail(str(e), 'anchor not found in the program')
    except ob.Absent as e:
        ctx.notes.append('no public operation reaches %s' % e)
    except TimeoutError:
        ctx.fail(fn, 'analysis exceeded its time budget')
    except MemoryError:
        ctx.fail(fn, 'analysis exceeded its memory budget')
    except RecursionError:
        ctx.fail(fn, 'not decided by the analysis', 'recursion limit')
    except Exception as e:
        ctx.fail(fn, 'not decided by the analysis', ''.join(traceback.format_exc()[-500:]))
    finally:
        signal.alarm(0)
    s = ctx.stats
    return {'name': name, 'time': round(time.time() - t, 3), 'problems': [(p.key(), p.construct, p.rule, p.detail) for p in ctx.problems],
            'steps': s['steps'], 'branches': s['branches'], 'joins': s['joins'], 'paths': s['paths'], 'facts': s['facts'],
            'functions': sorted(s['functions']), 'models': sorted(map(str, s['models'])), 'notes': ctx.notes, 'items': ctx.items}


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first violation (development)')
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    import props
    spec = props.PROPS[pid]
    obs = spec['obligations'](tier)
    if tier == 'thorough':
        obs = props.deepen(obs)
    if a.only:
        obs = [o for o in obs if a.only in repr(o)]
    results, broken = [], []
    cfgs = sorted({o[0] for o in obs} | set(spec.get('cfgs', ())), key=lambda c: ['serde', 'serde-release', 'borsh'].index(c))
    import ob
    for c in cfgs:
        path, err = extract(c)
        if path is None:
            sys.stdout.write(err[-4000:])
            comp = re.search(r'could not compile `([^`]*)`', err)
            broken.append(('build | %s' % c, c, 'the tree or its public interface no longer compiles against the analysis roots', err[-400:]))
            # the crate itself does not build: no verdict about the property
            if not (comp and comp.group(1) == 'roots') and not (c == 'borsh' and 'shortcut' in spec and comp and 'serde' in PROGS):
                print('ERROR: extraction failed for configuration %s' % c)
                sys.exit(2)
            continue
        PROGS[c] = ob.Program(path)
    limit = 700 if tier == 'quick' else 3000
    end = t0 + (860 if tier == 'quick' else 14000)

    def run_all(obs):
        tasks = [o + (limit,) for o in obs if o[0] in PROGS]
        got = []
        if not tasks:
            return tasks, got
        with multiprocessing.get_context('fork').Pool(min(a.jobs, len(tasks)), _init, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_one, tasks, chunksize=1)
            while True:
                try:
                    r = it.next(timeout=max(1, end - time.time()))
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                got.append(r)
                if a.first and r['problems']:
                    pool.terminate()
                    return [], got
                if a.v or a.only:
                    print('%-60s %7.2fs steps=%d paths=%d problems=%d' % (r['name'], r['time'], r['steps'], r['paths'], len(r['problems'])))
                    for p in r['problems']:
                        print('     ', p[0], '::', p[3])
        return tasks, got

    tasks = []
    if 'always' in spec:
        tk, got = run_all(spec['always'](tier))
        tasks += tk
        results += got
    if 'shortcut' in spec and not a.only:
        # identical code needs no second proof; otherwise the specification decides
        tk, got = run_all(spec['shortcut'](tier))
        soft = {p[1] for x in got for p in x['problems'] if p[2].startswith('different code') and not p[1].endswith(('_display', '_debug'))}
        for x in got:
            x['problems'] = [p for p in x['problems'] if p[1] not in soft]
            x['notes'] = x['notes'] + ['differs: ' + r for r in sorted(soft)]
        tasks += tk
        results += got
        if tk and len(got) == len(tk) and not soft:
            obs = []
    tk, got = run_all(obs)
    tasks += tk
    results += got
    if spec.get('cover') and not a.only:
        for c in PROGS:
            reached = {f for r in results if r['name'].endswith('[%s]' % c) for f in r['functions']}
            for r in sorted(PROGS[c].roots):
                ser = r.startswith(('root_ser_', 'root_de_'))
                if c == 'borsh' and not ser or r.endswith(('_display', '_debug')):
                    continue
                if not any(f.startswith('roots::') and f.endswith('::' + r) for f in reached):
                    broken.append(('coverage | %s | public operation not analysed' % r, r, 'public operation not analysed', c))
    results.sort(key=lambda r: r['name'])
    probs = list(broken)
    done = {r['name'] for r in results}
    for cfg, mod, fn, args, _ in tasks:
        name = '%s(%s)[%s]' % (fn, ', '.join(map(str, args)), cfg)
        if name not in done:
            probs.append(('%s(%s) | analysis | no result in the time and memory available' % (fn, ', '.join(map(str, args))), name, 'no result in the time and memory available', ''))
    for r in results:
        probs += [tuple(p) for p in r['problems']]
    seen, uniq = set(), []
    for p in probs:
        if p[0] not in seen:
            seen.add(p[0])
            uniq.append(p)
    known = known_findings().get(pid, {})
    kf = [p for p in uniq if p[0] in known]
    bad = [p for p in uniq if p[0] not in known]
    discharged = sum(1 for r in results if not any(p[0] not in known for p in r['problems']))
    funcs = sorted({f for r in results for f in r['functions']})
    mine = [f for f in funcs if 'rabe_bn' in f]
    cov = {
        'explanation': spec['rule'],
        'obligations': len(results), 'discharged': discharged,
        'checker_cmd': 'python3 check.py --property %s --tier %s' % (pid, tier),
        'trusted_base': ['rustc nightly MIR construction', 'engine/*.py abstract interpreter and its models of std', 'reference definitions in engine/ob*.py'],
        'rule': spec['rule'],
        'configurations': cfgs,
        'functions_analysed': len(mine), 'functions': mine, 'library_functions_interpreted': len(funcs) - len(mine),
        'mir_statements_evaluated': sum(r['steps'] for r in results), 'branches_decided_or_split': sum(r['branches'] for r in results),
        'joins': sum(r['joins'] for r in results), 'abstract_paths_to_exit': sum(r['paths'] for r in results),
        'structural_facts_checked': sum(r['facts'] for r in results),
        'std_models_used': sorted({m for r in results for m in r['models']}),
        'samples': [{'obligation': r['name'], 'seconds': r['time'], 'statements': r['steps'], 'paths': r['paths'], 'problems': len(r['problems']), 'items': r['items'][:8]} for r in results],
        'known_findings_reported': [p[0] for p in kf],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[p[0]]))
    if bad:
        rp = os.path.join(WORK, 'report-%s.txt' % pid)
        os.makedirs(WORK, exist_ok=True)
        with open(rp, 'w') as f:
            for key, con, rule, det in bad:
                f.write('obligation|construct|rule: %s\n    detail: %s\n' % (key, det))
            f.write('\nreplay: cd /verif && python3 check.py --property %s --tier %s\n' % (pid, tier))
        for key, con, rule, det in bad[:20]:
            print('violated: %s :: %s' % (key, det))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('OK property=%s obligations=%d functions=%d statements=%d wall=%.1fs' % (pid, len(results), len(mine), cov['mir_statements_evaluated'], time.time() - t0))


if __name__ == '__main__':
    main()
