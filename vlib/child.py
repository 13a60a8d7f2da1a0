"""Runs in a fresh interpreter (other hash seed): JSON job on stdin -> stdout."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import sut  # noqa: E402


def job(j):
    if j['do'] == 'clusters':
        return [[c.pattern, sorted(c.metas), c.count]
                for c in sut.clusters(j['urls'], j['mcn'])]
    if j['do'] == 'digests':
        return [sut.fuzzy_digest(u) for u in j['texts']]
    if j['do'] == 'match':
        m = sut.new_matcher(j['patterns'])
        return [sut.metas(sorted(m.match(u), reverse=True)) for u in j['urls']]
    if j['do'] == 'values':
        from vlib.props import c23
        return c23.child_job(j)
    raise ValueError(j)


def run(jobs, hashseed):
    """Used by the checks: results of the jobs in a new interpreter."""
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               VERIF_NO_VENV='1')       # ete3 takes seconds to import
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__)],
                       input=json.dumps(jobs).encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise sut.Violation('fails in a fresh interpreter with PYTHONHASHSEED=%s: %s'
                            % (hashseed, p.stderr.decode('utf-8', 'replace')[-1500:]))
    return json.loads(p.stdout)


if __name__ == '__main__':
    json.dump([job(j) for j in json.load(sys.stdin)], sys.stdout)
