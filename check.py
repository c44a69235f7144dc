#!/usr/bin/env python3
"""Runs the check of one property.

check.py <property id> [--tier quick|thorough] [--only substr]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  2: error of the check.
"""

import array
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=3:'
                    'detect_odr_violation=0:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:abort_on_error=1',
    'LC_ALL': 'C.UTF-8',
    'PYTHONDONTWRITEBYTECODE': '1',
})


def known_findings(prop):
    keys = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', line)
                if m and m.group(1) == prop:
                    keys[m.group(2)] = m.group(3).strip()
    return keys


class Job:
    def __init__(self, cmd, scenario, shard, shards, work):
        self.cmd = cmd
        self.scenario = scenario
        self.shard = shard
        self.shards = shards
        tag = re.sub(r'\W+', '_', os.path.basename(cmd[-1]) + '_' + scenario) + f'_{shard}'
        self.out = os.path.join(work, tag + '.json')
        self.cur = os.path.join(work, tag + '.cur')
        self.err = os.path.join(work, tag + '.err')
        self.proc = None
        self.hung = False
        self.result = None

    def start(self, tier, keys, budget):
        for f in (self.out, self.cur, self.err):
            if os.path.exists(f):
                os.remove(f)
        cmd = self.cmd + ['--scenario', self.scenario, '--shard', f'{self.shard}/{self.shards}',
                          '--out', self.out, '--cur', self.cur, '--budget', str(budget)]
        if tier == 'thorough':
            cmd.append('--thorough')
        for k in keys:
            cmd += ['--known', k]
        self.errf = open(self.err, 'wb')
        self.hung = False
        self.proc = subprocess.Popen(cmd, stdout=self.errf, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, env=ENV, start_new_session=True,
                                     cwd=os.path.dirname(self.out))
        self.last = (-1, time.time())

    def execs(self):
        try:
            with open(self.cur, 'rb') as f:
                b = f.read(8)
            return struct.unpack('<Q', b)[0] if len(b) == 8 else 0
        except OSError:
            return 0

    def path(self):
        try:
            with open(self.cur, 'rb') as f:
                b = f.read()
            _, n, _ = struct.unpack_from('<QII', b)
            return list(struct.unpack_from(f'<{min(n, 16384)}i', b, 16))
        except (OSError, struct.error):
            return []

    def poll(self, hang):
        rc = self.proc.poll()
        if rc is None:
            e = self.execs()
            now = time.time()
            if e != self.last[0]:
                self.last = (e, now)
            elif now - self.last[1] > hang:
                self.hung = True
                self.kill()
                return self.proc.wait()
        return rc

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def finish(self):
        self.errf.close()
        if os.path.exists(self.out):
            with open(self.out) as f:
                self.result = json.load(f)


def tail(fn, n=3000):
    try:
        with open(fn, 'rb') as f:
            return f.read()[-n:].decode('utf-8', 'replace')
    except OSError:
        return ''


def replay(cmd, scenario, path, tier, keys, timeout=200):
    """Returns (failed, text)"""
    c = cmd + ['--scenario', scenario, '--replay', ','.join(map(str, path))]
    if tier == 'thorough':
        c.append('--thorough')
    for k in keys:
        c += ['--known', k]
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, env=ENV, start_new_session=True,
                         cwd=os.path.join(build.BUILD, 'work'))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode != 0, o.decode('utf-8', 'replace'), p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return True, o.decode('utf-8', 'replace') + '\nTIMEOUT\n', -1


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else ''
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    hang = 60 if tier == 'quick' else 240

    os.makedirs(build.BUILD, exist_ok=True)
    lock = open(os.path.join(build.BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)

    def terminate(*_):
        for j in running:
            j.kill()
        os._exit(2)
    running = []
    signal.signal(signal.SIGTERM, terminate)
    signal.signal(signal.SIGINT, terminate)

    hs = build.generate()
    names = [n for n, s in hs.items() if prop in s['property']]
    if not names:
        print(f'no harness for {prop}')
        return 2
    t = build.targets_of(hs, names)
    if t and not build.build(t):
        print('ERROR: build failed')
        return 2
    t_build = time.time() - t0

    work = os.path.join(build.BUILD, 'work', prop)
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    keys = known_findings(prop)

    cmds = []
    for n in names:
        if hs[n].get('python'):
            cmds.append([build.PY, hs[n]['file']])
        else:
            for fl in hs[n]['flavour']:
                cmds.append([build.exe(n, fl)])

    jobs = []
    bounds = []
    for c in cmds:
        cc = c + ['--list'] + (['--thorough'] if tier == 'thorough' else [])
        r = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True,
                           cwd=work)
        if r.returncode:
            # It cannot even initialize: that is the code under test failing.
            time.sleep(1)
            r2 = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True,
                                cwd=work)
            if r2.returncode:
                return violation(prop, tier, c, '(startup)', [], r2.stderr[-3000:], 'startup failed')
            r = r2
        for line in r.stdout.splitlines():
            f = line.split('\t')
            if len(f) != 3:
                continue
            scn, shards, b = f
            if ':' in scn and scn.split(':')[0].startswith('P') and scn.split(':')[0] != prop:
                continue
            if only and only not in scn:
                continue
            bounds.append({'harness': os.path.basename(c[-1]), 'scenario': scn, 'bounds': b})
            for i in range(int(shards)):
                jobs.append(Job(c, scn, i, int(shards), work))
    if not jobs:
        print('no scenarios')
        return 2

    ncpu = os.cpu_count() or 4
    # The large ones first.
    pending = sorted(jobs, key=lambda j: -j.shards)
    bad = None
    budget = max(60, deadline - time.time() - 30)
    while pending or running:
        while pending and len(running) < ncpu and not bad:
            j = pending.pop(0)
            j.start(tier, keys, max(5, min(budget, deadline - time.time())))
            running.append(j)
        if bad:
            for j in running:
                j.kill()
                j.proc.wait()
                j.finish()
            break
        time.sleep(0.02)
        for j in list(running):
            rc = j.poll(hang)
            if rc is None:
                if time.time() > deadline + 40:
                    j.kill()
                    j.proc.wait()
                    print(f'ERROR: deadline exceeded in {j.scenario}')
                    return 2
                continue
            running.remove(j)
            j.finish()
            if rc != 0:
                if '-k' in args:  # development: just list what fails
                    print(f'{os.path.basename(j.cmd[-1])} {j.scenario} {j.shard}/{j.shards} rc={rc} '
                          f'{(j.result or {}).get("message", tail(j.err, 400))}')
                    j.result = None
                    jobs.remove(j)
                else:
                    bad = (j, rc)

    if bad:
        j, rc = bad
        err = tail(j.err)
        if rc in (96, 97) and not j.hung:
            print(err)
            if rc == 96:
                print(f'ERROR: harness error in {j.scenario} (rc {rc})')
                return 2
        path = j.result['path'] if j.result and j.result.get('failed') else j.path()
        why = (j.result or {}).get('message') or \
            ('execution does not terminate' if j.hung else f'process died (status {rc})')
        ok = 0
        text = ''
        for _ in range(2):
            failed, text, rrc = replay(j.cmd, j.scenario, path, tier, keys)
            if failed and rrc not in (96,):
                ok += 1
        if ok == 2:
            return violation(prop, tier, j.cmd, j.scenario, path, err + '\n--- replay ---\n' + text, why)
        # Does not reproduce in isolation: depends on earlier executions of the same process (e.g.
        # corruption that carries over). Run the same shard again, from scratch.
        j.start(tier, keys, budget)
        while j.poll(hang) is None:
            time.sleep(0.05)
        j.finish()
        if j.proc.returncode != 0 and j.proc.returncode != 96:
            return violation(prop, tier, j.cmd, j.scenario, path,
                             tail(j.err) + '\n(reproduces only when the shard is run from its start: '
                             f'--shard {j.shard}/{j.shards})\n', why)
        print(f'ERROR: failure in {j.scenario} does not reproduce: {why}')
        print(err)
        return 2

    # Aggregate
    states, outcomes = set(), set()
    tot = {'executions': 0, 'transitions': 0, 'pruned': 0}
    capped = []
    per = {}
    samples = []
    known_hit = {}
    sums = {'states': 0, 'outcomes': 0}
    merge_budget = 12000000
    merged = True
    for j in jobs:
        r = j.result
        if r is None:
            print(f'ERROR: no result of {j.scenario}')
            return 2
        key = os.path.basename(j.cmd[-1]) + ':' + j.scenario
        p = per.setdefault(key, {'executions': 0, 'transitions': 0, 'states': 0, 'outcomes': 0})
        for k in ('executions', 'transitions', 'states', 'outcomes'):
            p[k] += r[k]
        for k in tot:
            tot[k] += r.get(k, 0)
        for k in sums:
            sums[k] += r[k]
        if r.get('capped'):
            capped.append(f'{key} shard {j.shard}')
        for k, v in r['known'].items():
            known_hit[k] = known_hit.get(k, 0) + v
        for s in r['samples'][:2]:
            if len([x for x in samples if x.startswith(key)]) < 2:
                samples.append(f'{key}: {s}')
        for ext, st in (('states', states), ('outcomes', outcomes)):
            fn = f'{j.out}.{ext}'
            if os.path.exists(fn):
                n = os.path.getsize(fn) // 8
                if merge_budget < n:
                    merged = False
                else:
                    merge_budget -= n
                    a = array.array('Q')
                    with open(fn, 'rb') as f:
                        a.frombytes(f.read())
                    h = hash(key) if False else int(hashlib.sha1(key.encode()).hexdigest()[:15], 16)
                    st.update(x ^ h for x in a)
                os.remove(fn)

    nstates = len(states | outcomes) if merged else sums['states'] + sums['outcomes']
    spec = load_level(prop)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': spec,
        'coverage': {
            'states': nstates,
            'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['executions'],
            'samples': samples[:24],
            'distinct_outcomes': len(outcomes) if merged else sums['outcomes'],
            'distinct_intermediate_states': len(states) if merged else sums['states'],
            'explanation': 'Stateless exploration: each trace is one execution of the real code, '
                           'compared step by step with a reference model. transitions: operations '
                           'executed on the real code. states: distinct fingerprints of observed '
                           'states and of complete observable outcomes'
                           + ('.' if merged else ' (summed over the shards).'),
            'revisited_states_pruned': tot['pruned'],
            'exhaustive': not capped,
            'capped': capped,
            'bounds': bounds,
            'per_scenario': per,
            'known_findings_hit': known_hit,
        },
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(t_build, 2),
        'violations': 0,
        'assumptions': [
            'The compiler, the sanitizers and the C/C++ runtime are trusted.',
            'Values outside the stated alphabets and histories beyond the stated bounds are not covered.',
        ],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(known_hit.items()):
        print(f'KNOWN-FINDING: property={prop} {keys.get(k, k)} ({v} executions)')
    print(f'{prop} {tier}: held on {tot["executions"]} executions, {tot["transitions"]} transitions, '
          f'{nstates} states; build {t_build:.0f}s, total {time.time() - t0:.0f}s'
          + (f'; CAPPED: {capped}' if capped else ''))
    if '-v' in args:
        for k, p in per.items():
            w = sum(j.result['wall_s'] for j in jobs if os.path.basename(j.cmd[-1]) + ':' + j.scenario == k)
            print(f'  {k}: {p} cpu {w:.1f}s')
    return 0


def load_level(prop):
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'model_checking'


def violation(prop, tier, cmd, scenario, path, text, why):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((scenario + str(path)).encode()).hexdigest()[:10]
    fn = os.path.join(d, f'{prop}-{re.sub(r"[^A-Za-z0-9]+", "_", scenario)}-{h}.txt')
    with open(fn, 'w') as f:
        f.write(f'property: {prop}\nscenario: {scenario}\nwhy: {why}\n')
        f.write('replay: ' + ' '.join(cmd + ['--scenario', scenario, '--replay',
                                             '"' + ','.join(map(str, path)) + '"']
                                      + (['--thorough'] if tier == 'thorough' else [])) + '\n')
        f.write('\n' + text + '\n')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': load_level(prop),
        'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                     'samples': [why[:500]]},
        'wall_s': 0, 'violations': 1,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{scenario}: {why}')
    print(text[-1500:])
    print(f'VIOLATION property={prop} replay={fn}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
