#!/usr/bin/env python3
"""python3 check.py C01 - decides one property on /repo's working tree (see DESIGN.md)."""
import json, os, re, vlib
from vlib import pick

REG = {}
def check(pid):
    def deco(f):
        REG[pid] = f
        return f
    return deco

# ---------------------------------------------------------------- searching
def search_check(c, mode, heap='12g', tags=''):
    d = c.drive(mode, tags=tags)
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.records('SearchCheck', recs, env={'VENV': os.path.join(d, 'env.json')}, heap=heap,
              describe=lambda r, exp: '%s: got %s err=%s, specification expects %s' % (r['about'], str(r['got'])[:300], r['errText'], exp[:300]))
    c.sample_records(recs)

@check('C01')
def c01(c):
    search_check(c, 'match')

@check('C02')
def c02(c):
    d = c.drive('trigram')
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    st = json.load(open(os.path.join(d, 'stats.json')))
    c.cov['pattern_text_pairs_prefiltered'] = st['pairs']
    c.cov['pairs_sent_to_TLC_because_the_query_fails'] = st['suspicious']
    c.records('TrigramCheck', recs, env={'VENV': os.path.join(d, 'env.json')},
              describe=lambda r, exp: r['about'] + ('' if r['kind'] == 'line' else ': proposed %s, must include %s' % (r['files'], exp)))
    c.sample_records(recs)

@check('C03')
def c03(c):
    search_check(c, 'ctx')

@check('C04')
def c04(c):
    search_check(c, 'page')

@check('C05')
def c05(c):
    search_check(c, 'path')

@check('C06')
def c06(c):
    d = c.drive('tree')
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.records('IndexingCheck', recs, describe=lambda r, exp: '%s; the specification expects %s' % (r['about'], exp[:200]))
    c.sample_records(recs)
    if not c.violations:
        disk(c, vlib.pick(8, 100), 'reads')

def record_check(c, command, module, **kw):
    d = c.drive(command)
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.records(module, recs, describe=lambda r, exp: '%s; the specification expects %s' % (r['about'], exp[:300]), **kw)
    c.sample_records(recs)

@check('C07')
def c07(c):
    record_check(c, 'posting', 'PostingCheck')

@check('C08')
def c08(c):
    record_check(c, 'merge', 'MergeCheck')

def scenarios(c, n, **const):
    """Behaviours of Hound found by TLC's simulator, for the driver to replay."""
    cfg = os.path.join(c.tmp, 'gen.cfg')
    k = dict(NRepos=2, MaxRev=4, Depth=150, Focus='"any"')
    k.update(const)
    with open(cfg, 'w') as f:
        f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % x for x in k.items()) +
                'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    rc, out = c.tlc('HoundGen', cfg, workers=1, timeout=300,
                    extra=['-simulate', 'num=%d' % n, '-depth', str(k['Depth']), '-seed', str(vlib.SEED * 1000 + len(c.phases))])
    seen = {}
    for m in re.findall(r'<<"SCENARIO", (".*")>>', out):
        s = json.loads(m)
        seen[s] = json.loads(s)
    if not seen:
        raise vlib.MachineryError('no scenarios:\n' + out[-3000:])
    return list(seen.values())

def held(pause):
    """Scenarios in which something takes long: a fetch at startup, one that requests and stops wait for, one that another repository waits for."""
    def cfg(**k):
        return dict(dict(op='cfg', slots=1, poll=[False, False], push=[True, True], url=[1, 2], bad=[]), **k)
    def st(*l):
        return [dict(op=x[0], r=x[1] if len(x) > 1 else 0, v=x[2] if len(x) > 2 else 0) for x in l]
    up = [('boot',), ('pullstart', 1), ('pullok', 1), ('pullstart', 2), ('pullok', 2), ('pullstart', 1), ('pullok', 1), ('started',)]
    return [
        [cfg()] + st(*up, ('commit', 1, 1), ('hold', 0, 1), ('request', 1), ('pullstart', 1), ('request', 2), ('request', 1), ('stop', 1), ('stop', 2), ('pause', 0, pause),
                     ('pullok', 1), ('halt', 1), ('hold', 0, 0), ('pullok', 2), ('halt', 2)),
        [cfg(slots=2)] + st(*up, ('commit', 1, 1), ('hold', 0, 1), ('request', 1), ('pullstart', 1), ('request', 1), ('pause', 0, pause), ('pullok', 1), ('hold', 0, 0), ('swap', 1, 1)),
        [cfg(slots=2, poll=[True, True])] + st(('hold', 0, 1), ('boot',), ('pullstart', 1), ('pullstart', 2), ('pullok', 2), ('pause', 0, pause), ('pullok', 1), ('hold', 0, 0), ('started',)),
        [cfg(slots=2, poll=[True, True])] + st(*up, ('hold', 0, 1), ('commit', 1, 1), ('commit', 2, 1), ('pullstart', 1), ('pullstart', 2), ('stop', 2), ('pause', 0, pause),
                                               ('pullok', 1), ('pullok', 2), ('hold', 0, 0), ('swap', 1, 1), ('halt', 2)),
    ]

def life(c, mix, budget):
    p = os.path.join(c.tmp, 'scenarios.ndjson')
    k = 0
    groups = [scenarios(c, n, **const) for n, const in mix]
    with open(p, 'w') as f:
        for s in held(vlib.pick(32000 if c.pid == 'C13' else 12000, 95000)):
            f.write(json.dumps(s) + '\n')
            k += 1
        for i in range(max(map(len, groups))):
            for g in groups:
                if i < len(g):
                    f.write(json.dumps(g[i]) + '\n')
                    k += 1
    os.chmod(p, 0o644)
    d = c.drive('life', p, str(budget), tags='sched', nobody=True, timeout=budget + 300)
    if c.violations:
        return
    st = json.load(open(os.path.join(d, 'stats.json')))
    c.cov['scenarios_generated_by_TLC'] = k
    c.cov['scenarios_replayed'] = st['scenarios']
    recs = os.path.join(d, 'recs.ndjson')
    c.traces_ok('HoundTrace', recs, describe=lambda r, at, e: '%s (configuration %s)' % (json.dumps(e), json.dumps(r['cfg'])))
    c.sample_records(recs, width=900)

def mc(c, rev, req, stop, crash, fault, configs, kinds='pull content stick disk', timeout=900):
    """Model checks the specification of the daemon's life itself."""
    cfg = os.path.join(c.tmp, 'mc.cfg')
    with open(cfg, 'w') as f:
        f.write(open(os.path.join(vlib.VERIF, 'spec/HoundMC.cfg')).read().split('CONSTANTS')[0] +
                'CONSTANTS\n  NRepos = 2\n  MaxRev = %d\n  MaxReq = %d\n  MaxStop = %d\n  MaxCrash = %d\n  MaxFault = %d\n  Kinds = {%s}\n  Configs = "%s"\n'
                % (rev, req, stop, crash, fault, ', '.join('"%s"' % k for k in kinds.split()), configs) +
                'SPECIFICATION' + open(os.path.join(vlib.VERIF, 'spec/HoundMC.cfg')).read().split('SPECIFICATION')[1])
    c.tlc_ok('HoundMC', cfg, timeout=timeout)
    c.cov.setdefault('model_checked', []).append('NRepos=2 MaxRev=%d MaxReq=%d MaxStop=%d MaxCrash=%d MaxFault=%d (%s) configurations=%s: %d distinct states'
                                                 % (rev, req, stop, crash, fault, kinds, configs, c.last_states[1]))

MC = {'C09': [(2, 1, 0, 0, 0, 'some')], 'C10': [(1, 0, 0, 0, 1, 'some')], 'C11': [(1, 2, 1, 0, 0, 'some')], 'C12': [(1, 1, 0, 0, 0, 'all')],
      'C13': [(1, 1, 1, 0, 0, 'some')], 'C14': [(1, 0, 0, 1, 0, 'some')], 'C15': [(1, 1, 0, 1, 0, 'some'), (1, 0, 0, 0, 1, 'some', 'pull content disk')], 'C16': [(1, 1, 0, 2, 0, 'some')],
      'C17': [(1, 0, 0, 0, 0, 'all'), (1, 0, 0, 0, 1, 'some', 'pull disk')]}
DEEP = [(1, 1, 1, 1, 1, 'some'), (1, 1, 0, 1, 1, 'some', 'pull content disk'), (1, 1, 1, 1, 0, 'all'), (2, 1, 0, 1, 0, 'some')]

def model(c):
    for m in MC[c.pid]:
        mc(c, *m)
    if vlib.THOROUGH:
        for m in DEEP:
            mc(c, *m, timeout=1800)
        c.tlc_ok('HoundMC', 'HoundLive.cfg', timeout=3000)
        c.cov['model_checked'].append('liveness Visible, Fetched, StopsAll, AllProcessed: %d distinct states' % c.last_states[1])

LIFE = {   # what the scenarios of each property's check are rich in
    'C09': ['swap', 'any', 'swap', 'fault'],
    'C10': ['fault', 'swap', 'any'],
    'C11': ['push', 'stop', 'push', 'any'],
    'C12': ['slots', 'slots', 'fail', 'any'],
    'C13': ['stop', 'stop', 'boot', 'any'],
    'C14': ['boot', 'boot', 'any'],
    'C15': ['boot', 'fault', 'any'],
    'C17': ['fail', 'fail', 'fault', 'any'],
}
for _p in LIFE:
    @check(_p)
    def _life(c):
        n = vlib.pick(50, 500)
        mix = []
        for i, f in enumerate(LIFE[c.pid]):
            mix.append((n, dict(Focus='"%s"' % f, NRepos=4 if f == 'slots' else 3 if f == 'fail' and i else 2,
                                Depth=220 if f == 'boot' else 200 if f == 'slots' else 150)))
        if c.pid in ('C10', 'C13', 'C14', 'C17'): # a repository on its own
            mix.append((n // 4, dict(Focus='"%s"' % LIFE[c.pid][0], NRepos=1, Depth=16 if c.pid == 'C17' else 24)))
        model(c)
        life(c, mix, vlib.pick(18, 300))
        if c.pid in ('C10', 'C15', 'C17') and not c.violations:
            disk(c, vlib.pick(10, 150))
        if c.pid in ('C13', 'C17') and not c.violations:
            daemon(c)
        if c.pid == 'C11' and not c.violations:
            http_check(c, 'requests', 'push')
        if c.pid == 'C09' and not c.violations:
            search_check(c, 'storm', tags='sched')

def ctrace(c):
    out = os.path.join(c.tmp, 'ctrace')
    c.sh(['gcc', '-O2', '-o', out, os.path.join(vlib.VERIF, 'harness/ctrace/ctrace.c')], what='building ctrace')
    return out

def disk(c, budget, *what):
    """System calls that read sources and write indexes fail."""
    d = c.drive('disk', ctrace(c), str(budget), c.fast_dir(), *what, nobody=True, timeout=budget + 300)
    if c.violations:
        return
    c.cov.update(json.load(open(os.path.join(d, 'stats.json'))))
    c.traces_ok('HoundTrace', os.path.join(d, 'recs.ndjson'), describe=lambda r, at, e: '%s (configuration %s)' % (json.dumps(e), json.dumps(r['cfg'])))

@check('C16')
def c16(c):
    model(c)
    b = vlib.pick(25, 400)
    d = c.drive('crash', ctrace(c), str(b), c.fast_dir(), nobody=True, timeout=b + 300)
    if c.violations:
        return
    c.cov.update(json.load(open(os.path.join(d, 'stats.json'))))
    recs = os.path.join(d, 'recs.ndjson')
    c.traces_ok('HoundTrace', recs, describe=lambda r, at, e: '%s (configuration %s)' % (json.dumps(e), json.dumps(r['cfg'])))
    c.sample_records(recs, width=900)

# ---------------------------------------------------------------- HTTP
def http_check(c, command, *args):
    d = c.drive(command, *args)
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.records('ApiCheck', recs, env={'VENV': os.path.join(d, 'env.json')},
              describe=lambda r, exp: '%s; the specification expects %s' % (r['about'], exp[:400]))
    c.sample_records(recs)

@check('C20')
def c20(c):
    http_check(c, 'api')

@check('C21')
def c21(c):
    http_check(c, 'requests')

@check('C22')
def c22(c):
    record_check(c, 'secrets', 'Disclosure')

def web_traces(c, d):
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.traces_ok('WebTrace', recs, describe=lambda r, at, e: '%s (%s)' % (json.dumps(e), r['cfg']))
    c.sample_records(recs, width=900)

def daemon(c):
    b = c.build_repo('./cmds/houndd', 'houndd')
    os.chmod(b, 0o755)
    web_traces(c, c.drive('daemon', b, nobody=True))

@check('C24')
def c24(c):
    c.tlc_ok('WebMC')
    c.cov['model_checked'] = 'the specification of readiness and termination: %d states' % c.last_states[1]
    web_traces(c, c.drive('web', tags='sched'))
    daemon(c)

@check('C23')
def c23(c):
    record_check(c, 'conf', 'ConfigCheck')

# ---------------------------------------------------------------- version control
def histories(c, gen, sizes, command, trace, needs='"fetch"', timeout=800):
    """Behaviours of the specification found by TLC's simulator, replayed into the real code;
    what that did is validated by TLC."""
    cfg = os.path.join(c.tmp, 'gen.cfg')
    seen = {}
    for depth, n in sizes:
        with open(cfg, 'w') as f:
            f.write('CONSTANTS\n Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % depth)
        rc, out = c.tlc(gen, cfg, workers=1, timeout=300,
                        extra=['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(vlib.SEED * 1000 + depth)])
        one = {}
        for m in re.findall(r'<<"SCENARIO", (".*")>>', out):
            s = json.loads(m)
            one[s[:len(s) * 3 // 4]] = s
        for s in list(one.values())[:n]:
            if needs in s:
                seen[s] = 1
    if not seen:
        raise vlib.MachineryError('no scenarios:\n' + out[-3000:])
    p = os.path.join(c.tmp, 'scenarios.ndjson')
    with open(p, 'w') as f:
        f.write(''.join(s + '\n' for s in seen))
    os.chmod(p, 0o644)
    c.cov['scenarios_generated_by_TLC'] = len(seen)
    d = c.drive(command, p, c.fast_dir(), nobody=True, timeout=timeout)
    if c.violations:
        return
    c.cov.update(json.load(open(os.path.join(d, 'stats.json'))))
    recs = os.path.join(d, 'recs.ndjson')
    c.traces_ok(trace, recs, describe=lambda r, at, e: '%s (configuration %s)' % (json.dumps(e), json.dumps(r['ev'][0])))
    c.sample_records(recs, width=900)

@check('C18')
def c18(c):
    histories(c, 'GitGen', ((18, vlib.pick(250, 2500)), (36, vlib.pick(120, 1200))), 'git', 'GitTrace')

@check('C19')
def c19(c):
    histories(c, 'LocalGen', ((16, vlib.pick(600, 6000)), (40, vlib.pick(120, 1500))), 'local', 'LocalTrace', needs='"put"')

@check('C27')
def c27(c):
    histories(c, 'AttributesGen', ((8, vlib.pick(140, 1200)), (16, vlib.pick(60, 600))), 'attributes', 'AttributesTrace', needs='"boot"')

@check('C28')
def c28(c):
    record_check(c, 'tools', 'ToolCheck')

# ---------------------------------------------------------------- the client
@check('C25')
def c25(c):
    c.tlc_ok('ClientMC')
    c.cov['model_checked'] = 'adding matches to blocks one by one equals the declared blocks: %d match lists' % c.last_states[1]
    record_check(c, 'blocks', 'ClientCheck')

@check('C26')
def c26(c):
    b = c.build_repo('./cmds/hound', 'hound', cgo='0')
    os.chmod(b, 0o755)
    d = c.drive('cli', b)
    if c.violations:
        return
    recs = os.path.join(d, 'recs.ndjson')
    c.records('ClientCheck', recs, describe=lambda r, exp: '%s; sent %s; the specification expects %s' % (r['about'], r['sent'], exp[:300]))
    c.sample_records(recs)

if __name__ == '__main__':
    vlib.main(REG)
