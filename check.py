#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's current source by static analysis.

exit 0  the rule holds on everything analysed (known findings are listed)
exit 1  a construct of the current source breaks it (VIOLATION line)
exit 2  no answer: the source does not compile, an anchor vanished, or the analysis exceeded its budget
"""
import argparse, hashlib, importlib, json, os, pkgutil, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import build, common, engine           # noqa: E402
import sa.rules                                # noqa: E402
from sa.rules import shared                     # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


def all_jobs():
    out = []
    for m in sorted(x.name for x in pkgutil.iter_modules(sa.rules.__path__)):
        mod = importlib.import_module('sa.rules.' + m)
        out += list(getattr(mod, 'JOBS', ()))
    return out


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append([x.strip() for x in l.split('::')[1:5]])
    return out


def ident(r):
    return [r['entry'], r.get('case', '') or '-', r['function'], r['msg']]


def never(j, prog, fl, msg):
    f = prog.fn(j['entry'])
    return {'prop': j['props'], 'msg': msg, 'where': '%s:%s' % (f.file, f.line), 'function': j['entry'], 'entry': j['entry'],
            'case': j.get('case', ''), 'flavour': fl, 'path': []}


def run_job(j, P, tier):
    """-> (reports, stats)"""
    if j['kind'] == 'fn':
        return j['run'](P, tier)
    reps, stats = [], []
    for fl in j.get('flavours', ('c', 'cxx')):
        if j.get('only') and not j['only'](P[fl]):
            continue
        an = j['make']()
        an.tier = tier
        en = engine.Engine(P[fl], an)
        en.start(j['entry'])
        en.explore()
        sites = len(getattr(an, 'sites', ()))
        if not an.reports and en.exits:
            for fn, blk, tr in en.endless()[:1]:
                loc = next((x['loc'] for x in fn.blocks[blk] if x.get('loc')), None) or (fn.file, fn.line)
                path = []
                while tr:
                    tr, x = tr[0], path.append(tr[1])
                an.reports.append(dict(never(j, P[fl], fl, 'a path of this call never ends, whatever other threads do: it stays in the loop here for ever'),
                                       where='%s:%s' % (loc[0], loc[1]), function=fn.name, path=path[::-1]))
        if not an.reports:
            # the whole entry point was explored: what never happened on any path cannot happen
            if en.exits == 0 and not getattr(an, 'noexit', False):
                an.reports.append(never(j, P[fl], fl, 'the call never comes back: no path reaches its end'))
            elif j.get('min_sites') and not sites:
                an.reports.append(never(j, P[fl], fl, 'no path of this call performs any of the operations the property is about (it can only refuse or do nothing)'))
        reps += an.reports
        stats.append({'entry': j['entry'], 'case': j.get('case', ''), 'library': fl, 'functions': sorted(en.fns_seen), 'path_states': en.nstates,
                      'instructions': en.ninst, 'exits': en.exits, 'branches': len(en.branches), 'rule_sites': ['%s %s' % s if len(s) == 2 else str(s) for s in sorted(getattr(an, 'sites', ()), key=str)]})
    return reps, stats


def decide(prop, tier='quick', P=None, out=print):
    t0 = time.time()
    jobs = [j for j in all_jobs() if prop in j['props']]
    if not jobs:
        raise SystemExit('unknown property ' + prop)
    if P is None:
        common.set_constants(build.constants())
        P = build.programs()
    reps, stats, errs = [], [], []
    for j in jobs:
        try:
            r, s = run_job(j, P, tier)
        except engine.AnalysisBroken as x:
            errs.append('%s %s: %s' % (j.get('entry', j.get('name')), j.get('case', ''), x))
            continue
        reps += [x for x in r if x.get('prop', prop) == prop or prop in (x.get('prop') if isinstance(x.get('prop'), tuple) else ())]
        stats += s
    # a function of this property that works in data other threads may be using breaks it as well
    seen = {(s.get('library'), f) for s in stats for f in s.get('functions', ()) if s.get('exits') or s.get('path_states')}
    if seen and prop != 'G02':
        try:
            reps += [x for x in shared.findings(P) if (x['flavour'], x['function']) in seen]
        except engine.AnalysisBroken as x:
            errs.append('shared data: %s' % x)
    uniq = {}
    for r in reps:
        uniq.setdefault(tuple(ident(r)), r)
    kn = known(prop)
    viol, kf = [], []
    for k, r in uniq.items():
        (kf if list(k) in kn else viol).append(r)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {
              'explanation': 'abstract interpretation of every path of the listed entry points (callees inlined, loops to fixpoint) over LLVM IR '
                             'compiled from the working tree, both library flavours; the rule monitors the listed sites and judges every exit',
              'entries': len(stats), 'functions': sorted({f for s in stats for f in s.get('functions', ())}),
              'path_states': sum(s.get('path_states', 0) for s in stats), 'exits_judged': sum(s.get('exits', 0) for s in stats),
              'branches_resolved': sum(s.get('branches', 0) for s in stats),
              'obligations_met': sum(s.get('exits', s.get('obligations', 0)) for s in stats) - len(uniq),
              'detail': stats},
          'assumptions': sorted({a for j in jobs for a in j.get('assumes', ())}),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol), 'known_findings': len(kf)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    out('%s: %d analyses, %d functions, %d path states, %d exits judged, %d rule sites' % (
        prop, len(stats), len(ev['coverage']['functions']), ev['coverage']['path_states'], ev['coverage']['exits_judged'],
        sum(len(s.get('rule_sites', ())) for s in stats)))
    for r in kf:
        out('KNOWN-FINDING: property=%s %s: %s: %s' % (prop, r['entry'], r['function'], r['msg']))
    for r in viol:
        rid = hashlib.sha1(repr(ident(r)).encode()).hexdigest()[:10]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.txt' % (prop, rid))
        with open(p, 'w') as f:
            f.write('property %s\nentry %s (%s library) %s\nat %s in %s\n%s\n\npath:\n%s\n' % (
                prop, r['entry'], r.get('flavour', ''), r.get('case', ''), r['where'], r['function'], r['msg'], '\n'.join('  ' + x for x in r.get('path', ()))))
        out('%s: in %s (entry %s %s, %s library): %s' % (r['where'], r['function'], r['entry'], r.get('case', ''), r.get('flavour', ''), r['msg']))
        for x in r.get('path', ())[-12:]:
            out('    ' + x)
        out('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, HERE)))
    for e in errs:
        out('ANALYSIS-BROKEN %s: %s' % (prop, e))
    return 1 if viol else 2 if errs else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    try:
        props = a.prop
        common.set_constants(build.constants())
        if props == ['all']:
            props = sorted({p for j in all_jobs() for p in j['props']})
        P = build.programs()
        rc = 0
        for p in props:
            r = decide(p, a.tier, P)
            rc = 1 if 1 in (r, rc) else max(r, rc)
    except (engine.AnalysisBroken, build.BuildError) as x:
        print('ANALYSIS-BROKEN', x)
        rc = 2
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
