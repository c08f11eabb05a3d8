# Development aid: hand-written refactorings that keep the behaviour; the
# checks have to stay quiet on each. usage: python3 hand.py FILE.py [ids]
import subprocess, sys, os, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
mod = __import__(os.path.basename(sys.argv[1])[:-3])
want = sys.argv[2:]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0', SPEC='/verif/spec', GOMEMLIMIT='6GiB')
def run(r):
    d = '/tmp/hr/' + r['id']
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('node_modules', '.git'))
    for f, old, new in r['edits']:
        p = d + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            return r['id'], 'EDIT %s: %d matches of %r' % (f, s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    subprocess.run(['gofmt', '-l', d], env=env, capture_output=True)
    b = subprocess.run('go build $(go list -e ./... | grep -v coin2html)', cwd=d, shell=True, env=env, capture_output=True, text=True, errors='replace')
    if b.returncode:
        shutil.rmtree(d)
        return r['id'], 'BUILD ' + b.stderr[:800]
    t = subprocess.run('go test $(go list -e ./... | grep -v coin2html)', cwd=d, shell=True, env=env, capture_output=True, text=True, errors='replace')
    if t.returncode:
        shutil.rmtree(d)
        return r['id'], 'TEST ' + t.stdout[-800:]
    o = subprocess.run([os.environ.get('CV', '/tmp/cv'), 'all'], env=dict(env, VERIF_REPO=d), capture_output=True, text=True, errors='replace')
    if not os.environ.get('KEEP'):
        shutil.rmtree(d)
    ls = [l[:int(os.environ.get('LONG', '300'))] for l in (o.stdout + o.stderr).splitlines() if 'note:' not in l]
    return r['id'], '\n'.join(ls[:int(os.environ.get('N', '3'))] + ls[-1:] if len(ls) > 1 else ls)
rs = [r for r in mod.R if not want or r['id'] in want]
ok = 0
with cf.ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(run, rs):
        if o.strip() == '0 alarms':
            ok += 1
        else:
            print('==', i); print(o)
print(ok, 'quiet of', len(rs))
