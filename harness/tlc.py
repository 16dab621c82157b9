"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def run(module, env=None, workers=1, heap='1500m', timeout=800, cfg=None, extra=(), stack='64m'):
    """Runs TLC on spec/<module>.tla; returns (records printed with ToJson, stats, output).

    An invariant violation of the specification itself or any TLC error raises TLCError: the
    specification, not the code, is wrong then."""
    meta = tempfile.mkdtemp(prefix='tlc_')
    try:
        cmd = ['java', '-Xmx' + heap, '-Xss' + stack, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(meta, 'm'), '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    recs = []
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            recs.append(json.loads(json.loads(line)))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if 'Model checking completed. No error has been found' not in out or not m:
        keep = [l for l in out.splitlines() if not l.startswith('"{')]
        raise TLCError('TLC failed on %s (exit %s)\n%s' % (module, p.returncode, '\n'.join(keep[-60:])))
    return recs, dict(states=int(m.group(2)), transitions=int(m.group(1))), out
