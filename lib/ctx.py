"""The context given to the property drivers."""
import hashlib
import json
import os
import random
import sys
import tempfile
import time

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

NAN = -999999001      # a NaN
NONINT = -999999002   # not the expected integer (detail kept beside the event)
MISSING = -999999003  # no such value


class Machinery(Exception):
    """Something wrong with the machinery itself: neither exit 0 nor exit 1."""


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rnd = random.Random(f'{prop}-{seed}')
        self.work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.t0 = time.time()
        self.coverage = {
            'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
            'events_validated': 0, 'model_transitions_replayed': 0, 'samples': [],
            'models': {}, 'events_by_kind': {},
        }
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = self._load_known()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    def np_rng(self, salt=''):
        import numpy as np

        digest = hashlib.sha256(f'{self.prop}-{self.seed}-{salt}'.encode()).digest()
        return np.random.default_rng(int.from_bytes(digest[:8], 'little'))

    # -- known findings ---------------------------------------------------
    def _load_known(self):
        if not os.path.exists(KNOWN):
            return []
        with open(KNOWN) as f:
            data = json.load(f)
        return [_ for _ in data.get('findings', []) if _['property'] == self.prop]

    def _known_match(self, key):
        for k in self.known:
            if k['key'] == key:
                return k
        return None

    # -- verdicts ---------------------------------------------------------
    def report(self, clauses, what, replay, key=None):
        """
        Report a violation.  ``key`` identifies the specific input, call site or
        history for the known-findings file.
        """
        k = self._known_match(key) if key is not None else None
        if k is not None:
            self.known_hits.setdefault(k['key'], k)
            return
        self.violations.append(
            {'property': self.prop, 'clauses': clauses, 'what': what,
             'replay': replay, 'key': key}
        )

    # -- TLC --------------------------------------------------------------
    def model(self, module, cfg, name=None, workers=4, timeout=600, env=None,
              expect_actions=(), args=()):
        """
        Model check a design specification exhaustively.  A failure is an error of
        the machinery: the specification does not read the code.
        """
        r = tlc.run(module, cfg, workers=workers, timeout=timeout, env=env,
                    args=('-coverage', '1', *args) if expect_actions else args)
        if not r.ok:
            raise Machinery(f'TLC failed on {module} (rc={r.rc}):\n{r.short()}')
        acts = r.actions()
        for a in expect_actions:
            if acts.get(a, (0, 0))[1] == 0:
                raise Machinery(f'{module}: the action {a} is never taken.')
        self.coverage['states'] += r.distinct
        self.coverage['transitions'] += r.generated
        self.coverage['models'][name or module] = {
            'distinct': r.distinct, 'generated': r.generated,
            'actions': {a: acts[a][1] for a in expect_actions},
        }
        return r

    def validate(self, module, histories, name=None, constants='', workers=8,
                 timeout=600, key=None, chunk=None):
        """
        Validate recorded histories (lists of events) against a trace
        specification.  Returns the list of (history, event, verdict).
        """
        if not histories:
            raise Machinery('No history to validate.')
        chunk = chunk or len(histories)
        rejected = []
        for i0 in range(0, len(histories), chunk):
            part = histories[i0:i0 + chunk]
            nevents = sum(len(h) for h in part)
            path = os.path.join(self.work, 'trace.json')
            with open(path, 'w') as f:
                json.dump([[self._strip(e) for e in h] for h in part], f)
            cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + constants
            r = tlc.run(module, cfg, env={'TRACE': path}, workers=workers,
                        timeout=timeout)
            if not r.ok:
                keep = os.path.join(VERIF, 'evidence', f'{self.prop}-tlc-failure.json')
                try:
                    os.replace(path, keep)
                except OSError:
                    pass
                raise Machinery(
                    f'TLC failed on {module} (rc={r.rc}):\n{r.out[-6000:]}'
                )
            consumed = r.distinct - len(part)
            verdicts = [m for m in r.messages if 'bad' in m]
            skipped = 0
            seen = set()
            for m in verdicts:
                h, i = m['h'] - 1, m['l'] - 1
                if (h, i) in seen:
                    continue
                seen.add((h, i))
                skipped += len(part[h]) - i - 1
                rejected.append((i0 + h, i, m))
            if consumed + skipped != nevents:
                raise Machinery(
                    f'{module}: {consumed} events consumed out of {nevents} '
                    f'({skipped} skipped).\n{r.out[-3000:]}'
                )
            self.coverage['states'] += r.distinct
            self.coverage['transitions'] += consumed
            self.coverage['traces_validated_against_impl'] += len(part)
            self.coverage['events_validated'] += consumed
            for h in part:
                for e in h:
                    k = e.get('op', '?')
                    d = self.coverage['events_by_kind']
                    d[k] = d.get(k, 0) + 1
        if len(self.coverage['samples']) < 4:
            self.coverage['samples'].append(
                {'spec': name or module, 'history': [self._short(e) for e in histories[
                    self.rnd.randrange(len(histories))][:6]]}
            )
        for h, i, m in rejected:
            e = histories[h][i]
            self.report(
                sorted(m['bad']),
                f'{name or module}: history {h} rejected at event {i} ({e.get("op")}): '
                f'clauses {sorted(m["bad"])}',
                {'spec': module, 'history': histories[h][:i + 1], 'verdict': m},
                key=e.get('key') or (key(histories[h], i, m) if key else None),
            )
        return rejected

    @staticmethod
    def _strip(e):
        return {k: v for k, v in e.items() if not k.startswith('_')}

    @staticmethod
    def _short(e):
        s = json.dumps(e)
        return e if len(s) < 1500 else s[:1500]

    # -- evidence ---------------------------------------------------------
    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        d = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': self.coverage,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
        with open(path, 'w') as f:
            json.dump(d, f, indent=1, default=str)

    def finish(self):
        self.write_evidence()
        for k in self.known_hits.values():
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        if not self.violations:
            c = self.coverage
            print(
                f'OK property={self.prop} states={c["states"]} '
                f'transitions={c["transitions"]} '
                f'traces={c["traces_validated_against_impl"]} '
                f'replayed={c["model_transitions_replayed"]} '
                f'wall={time.time() - self.t0:.1f}s'
            )
            return 0
        path = os.path.join(VERIF, 'evidence', f'{self.prop}-replay.json')
        with open(path, 'w') as f:
            json.dump(self.violations[:int(os.environ.get("VERIF_DUMP", 20))], f, indent=1, default=str)
        for v in self.violations[:5]:
            print('  ', v['what'], file=sys.stdout)
            print('   ', canon(v['replay'])[:1500], file=sys.stdout)
        print(f'{len(self.violations)} violation(s)')
        print(f'VIOLATION property={self.prop} replay={path}')
        return 1
