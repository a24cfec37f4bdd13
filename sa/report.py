"""Check driver: obligations, evidence file, known findings, verdict."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <what>' | 'fixed: property=<id> <commit> <what>'"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                parts = ln.split(' ', 3)
                out[(parts[1].split('=', 1)[1], parts[2].split('=', 1)[1])] = parts[3] if len(parts) > 3 else ''
    return out


class Report:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.t0 = time.time()
        s.obl = {}          # rule -> [checked, [examples]]
        s.viol = []         # (key, where, rule, msg)
        s.seen = set()
        s.funcs = set()
        s.notes = []
        s.paths = 0
        s.calls = 0
        s.rules = {}
        s.assumptions = []
        s.ext = set()

    # a rule is declared with its text; min = least number of instances it must see
    def rule(s, rid, text, min=1):
        s.rules[rid] = (text, min)
        s.obl.setdefault(rid, [0, []])

    def ok(s, rid, subject=None, n=1):
        o = s.obl.setdefault(rid, [0, []])
        o[0] += n
        if subject is not None and len(o[1]) < 6 and subject not in o[1]:
            o[1].append(str(subject))

    def bad(s, rid, key, where, msg):
        """one violated obligation; key identifies the construct (no line numbers)"""
        s.obl.setdefault(rid, [0, []])[0] += 1
        k = '%s:%s' % (rid, key)
        k = k.replace(' ', '_')
        if k in s.seen:
            return
        s.seen.add(k)
        s.viol.append((k, str(where), rid, msg))

    def check(s, rid, cond, key, where, msg, subject=None):
        if cond:
            s.ok(rid, subject)
        else:
            s.bad(rid, key, where, msg)
        return cond

    def engine(s, e, npaths):
        s.funcs |= {'%s:%s' % (f.mod.name, f.name) for f in e.analysed}
        s.paths += npaths
        s.calls += e.ncalls
        e.ncalls = 0
        s.ext |= e.ext_calls

    def finish(s, level, explanation):
        from ir import AnalysisBroken
        known = known_findings()
        broken = ['%s (needs %d, saw %d)' % (r, m, s.obl[r][0]) for r, (t, m) in s.rules.items() if s.obl[r][0] < m]
        new = [v for v in s.viol if (s.prop, v[0]) not in known]
        old = [v for v in s.viol if (s.prop, v[0]) in known]
        total = sum(o[0] for o in s.obl.values())
        ev = {
            'property': s.prop, 'tier': s.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'wall_s': round(time.time() - s.t0, 2),
            'assumptions': s.assumptions,
            'coverage': {
                'explanation': explanation,
                'functions_analysed': sorted(s.funcs), 'n_functions': len(s.funcs), 'abstract_paths': s.paths, 'call_sites_interpreted': s.calls,
                'unmodelled_external_calls': sorted(s.ext),
                'obligations': total, 'discharged': total - len(s.viol),
                'rules': {r: {'rule': t, 'instances_checked': s.obl[r][0], 'examples': s.obl[r][1]} for r, (t, m) in s.rules.items()},
                'notes': s.notes,
            },
            'violations': [{'key': k, 'where': w, 'rule': r, 'message': m} for k, w, r, m in new],
            'known_findings': [{'key': k, 'where': w, 'message': m} for k, w, r, m in old],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('property %s: analysed %d functions, %d abstract paths, %d call sites; %d obligations over %d rules, %.1fs' % (
            s.prop, len(s.funcs), s.paths, s.calls, total, len(s.rules), time.time() - s.t0))
        for r, (t, m) in s.rules.items():
            print('  %-28s %6d instances  %s' % (r, s.obl[r][0], t))
        if s.ext and os.environ.get('SA_VERBOSE'):
            print('  unmodelled externals:', ' '.join(sorted(s.ext)))
        for k, w, r, m in old:
            print('KNOWN-FINDING: property=%s %s (%s at %s)' % (s.prop, known[(s.prop, k)] or m, k, w))
        if new:
            rp = os.path.join(VERIF, 'evidence', s.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for k, w, r, m in new:
                    f.write('%s\n  rule: %s\n  at: %s\n  %s\n\n' % (k, s.rules.get(r, ('', 0))[0], w, m))
            for k, w, r, m in new[:40]:
                print('  violated %s at %s: %s' % (k, w, m))
            print('VIOLATION property=%s replay=%s' % (s.prop, rp))
            return 1
        if broken:
            print('ANALYSIS-BROKEN: rule(s) without instances: ' + '; '.join(broken))
            return 3
        return 0


def main(table):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from ir import AnalysisBroken
    f = table[a.prop]
    rep = Report(a.prop, a.tier)
    try:
        level, expl = f(rep)
        rc = rep.finish(level, expl)
    except AnalysisBroken as ex:
        # what was found before the analysis got stuck still counts
        print('ANALYSIS-BROKEN: %s' % ex)
        traceback.print_exc()
        rc = 3
        if rep.viol:
            r2 = rep.finish('other', 'analysis stopped early: %s' % ex)
            rc = 1 if r2 == 1 else 3
    sys.exit(rc)
