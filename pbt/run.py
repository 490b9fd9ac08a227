#!/usr/bin/python3
"""run.py Cnn [--only sub,..] [--scale x] [--all] [--seed n] [--tier t] [--replay file] [--no-build]

Decides one property by generated-input search (see DESIGN.md).  exit 0: held on everything
explored; exit 1 + 'VIOLATION property=<id> replay=<path>': broken; 2: error of the check."""
import argparse, importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

NEEDS = {  # property -> (variant, targets[, optional targets])
    'C05': ('rel', ['swig_medcoupling'], ['cshim']),
    'C28': ('rel', ['swig_medcoupling', 'swig_MEDLoader']),
    'C29': ('rel', ['swig_medcoupling', 'swig_MEDLoader']),
    'C30': ('rel', ['swig_medcoupling', 'swig_MEDLoader']),
    'C31': ('rel', ['swig_medcoupling', 'swig_MEDLoader', 'swig_MEDPartitioner']),
    'C32': ('rel', ['swig_medcoupling'], ['srshim']),
    'C34': ('rel', ['swig_medcoupling', 'swig_ParaMEDMEM']),
    'C36': ('asan', ['swig_medcoupling']),
}


def known(prop):
    try:
        return [k for k in json.load(open(os.path.join(build.VERIF, 'known_findings.json')))['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--replay')
    ap.add_argument('--trace')
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    prop = a.prop
    variant, targets, opt = (NEEDS.get(prop, ('rel', ['swig_medcoupling'])) + ([],))[:3]
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if os.environ.get('_PBT_STAGE') != '2':
        if not a.no_build:
            try:
                t = time.time()
                try:
                    build.ensure(variant, targets + opt)
                except build.BuildError:
                    if not opt:
                        raise
                    bdir = build.ensure(variant, targets)
                    for t1 in opt:              # the subchecks needing it find nothing to load
                        try:
                            os.remove(os.path.join(bdir, 'lib', 'lib%s.so' % t1))
                        except OSError:
                            pass
                print('build %s %.1fs' % (variant, time.time() - t), flush=True)
            except build.BuildError as e:
                print(str(e))
                sys.exit(2)
        env = build.env_for(variant)
        env['_PBT_STAGE'] = '2'
        os.execve('/usr/bin/python3', ['/usr/bin/python3', os.path.abspath(__file__)] + sys.argv[1:], env)
    os.environ['_PBT_STAGE'] = ''   # replays re-enter from the start
    import engine
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('props.' + prop.lower())
    if a.replay or a.trace:
        if a.trace:
            rec = dict(property=prop, subcheck=a.only, seed=seed, kind='trace', trace=json.loads(a.trace), variant=variant)
        else:
            rec = json.load(open(a.replay))
        failed, kind, msg, tr = engine.replay(rec, variant)
        print('REPLAY property=%s subcheck=%s %s %s' % (prop, rec['subcheck'], kind if failed else 'passes', msg))
        if not a.trace and rec.get('kind') == 'trace':
            pass
        sys.exit(1 if failed else 0)
    for k in known(prop):
        if k.get('status') != 'known':
            continue
        st, still = engine.in_child(lambda: bool(getattr(mod, k['demo'])()), 120, variant)
        if st != 'ok' or still:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    runner = getattr(mod, 'run', None)
    ev, fails, byname = engine.run_property(prop, seed, tier, variant, only=a.only.split(',') if a.only else None,
                                            scale=a.scale * float(getattr(mod, 'SCALE', 1)), allmode=a.all, jobs=a.jobs or getattr(mod, 'JOBS', None),
                                            assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    rc = 0
    if a.all:
        import re
        seen = {}
        for f in fails:
            seen.setdefault((f['sub'], f['kind'], re.sub('[-0-9.e,() ]+', '#', f['msg'].split('\n')[0])[:70]), []).append(f)
        for s, fl in list(seen.items())[:8]:
            fl.sort(key=lambda f: len(f['trace']))
            path, rec = engine.confirm(prop, fl[0], byname, seed, tier, variant, os.path.abspath(__file__), 6)
            lines = rec['msg'].split('\n')
            msg = lines[0][:700]
            if 'Traceback' in rec['msg']:
                msg += '\n' + '\n'.join([lines[i] + ' ' + lines[i + 1].strip() for i in range(len(lines) - 1) if '/pbt/' in lines[i] and 'engine.py' not in lines[i]][-3:])
            print('== %s %s x%d (conf %d) %s\n   %s' % (s[0], rec['kind'], len(fl), rec['confirmed'], path, msg))
            rc = 1
        for n, s in ev['coverage']['subchecks'].items():
            print('%-20s n=%d nt=%d disc=%d cpu=%.1f' % (n, s['evaluations'], s['distinct_nontrivial'], s['discarded'], s['cpu_s']))
        print('wall', ev['wall_s'], 'evals', ev['coverage']['evaluations'], 'nt', ev['coverage']['distinct_nontrivial'])
    elif fails:
        fails.sort(key=lambda f: (f['kind'] != 'fail', len(f['trace'])))
        unconf = []
        for f in fails[:6]:
            path, rec = engine.confirm(prop, f, byname, seed, tier, variant, os.path.abspath(__file__))
            if path:
                print('subcheck %s: %s' % (f['sub'], rec['msg'][-1500:]))
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                ev['violations'] = 1
                rc = 1
                break
            unconf.append(dict(sub=f['sub'], index=f['index'], msg=f['msg'][:300]))
        if rc == 0:
            print('unconfirmed failures (not reproducible):', json.dumps(unconf))
            ev['coverage']['unconfirmed'] = unconf
            if len(fails) >= 3:
                # repeated failures that vanish on replay: corrupted state; replay unit is the run
                print('VIOLATION property=%s replay=%s' % (prop, path or os.path.join(engine.WORK, 'replays')), flush=True)
                ev['violations'] = 1
                rc = 1
    else:
        print('property %s: %d cases, %d distinct non-trivial, %.1f s, held' % (prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    if not a.only:
        os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(build.VERIF, 'evidence', prop + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)
    sys.exit(rc)


if __name__ == '__main__':
    main()
