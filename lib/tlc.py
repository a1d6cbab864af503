"""Run TLC and parse its output."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
MARK = '@@'


class TLCError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        self.generated = self.distinct = 0
        m = None
        for m in re.finditer(
            r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out
        ):
            pass
        if m:
            self.generated = int(m.group(1).replace(',', ''))
            self.distinct = int(m.group(2).replace(',', ''))
        self.messages = []
        for line in out.splitlines():
            # PrintT prints TLA+ strings: "@@{\"a\":1}"
            if line.startswith('"' + MARK):
                self.messages.append(json.loads(json.loads(line)[len(MARK):]))
            elif line.startswith(MARK):
                self.messages.append(json.loads(line[len(MARK):]))
        self.ok = rc == 0

    def short(self):
        """The output without the coverage and the messages."""
        lines = [_ for _ in self.out.splitlines()
                 if MARK not in _ and not _.startswith(('  |', '|', '<'))]
        return '\n'.join(lines)[-6000:]

    def actions(self):
        """Per-action coverage: {action: (distinct, generated)}."""
        out = {}
        for m in re.finditer(
            r'^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)'
            r'(?: \([^)]*\))?>: (\d+):(\d+)', self.out, re.M,
        ):
            d, g = int(m.group(3)), int(m.group(4))
            old = out.get(m.group(1), (0, 0))
            out[m.group(1)] = (old[0] + d, old[1] + g)
        return out


def run(module, cfg, env=None, workers=4, timeout=600, args=(), heap='3g'):
    """
    Run TLC on spec/<module>.tla with the configuration text ``cfg``.
    """
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfgfile = os.path.join(work, 'M.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = [
            'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
            f'-DTLA-Library={SPEC}', '-cp', JAR, 'tlc2.TLC',
            '-config', cfgfile, '-metadir', os.path.join(work, 'states'),
            '-workers', str(workers), '-noGenerateSpecTE', *args,
            os.path.join(SPEC, module + '.tla'),
        ]
        try:
            p = subprocess.run(
                cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, timeout=timeout,
            )
        except subprocess.TimeoutExpired as exc:
            raise TLCError(f'TLC timed out on {module} after {timeout} s') from exc
        return Result(p.returncode, p.stdout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
