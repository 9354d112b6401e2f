#!/usr/bin/env python3
"""Builds the harness binary from /repo's current working tree: instruments the packages of /repo/streams, overlays
the runtime of /verif/rt and the harness of /verif/harness, and links against a kgo with a pluggable backend.

usage: build.py WORKDIR [msk]   -> WORKDIR/hx

With msk, the (instrumented) package of /repo/msk is linked in too, as a package of the streams module, with the
versions of the AWS libraries that /repo/msk/go.mod requires.
"""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FG = '/root/go/pkg/mod/github.com/twmb/franz-go@v1.8.0'

def env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', CGO_ENABLED='0')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write('FAILED: %s\n%s\n' % (' '.join(cmd), p.stdout[-6000:]))
        raise SystemExit(3)
    return p.stdout

def build(work, msk=False):
    os.makedirs(work, exist_ok=True)
    tool = os.path.join(work, 'instrument')
    run(['go', 'build', '-o', tool, './instrument'], cwd=os.path.join(VERIF, 'tools'))
    inst = os.path.join(work, 'inst')
    os.makedirs(inst, exist_ok=True)
    run([tool, '-dir', os.path.join(REPO, 'streams'), '-out', inst, '-sites', os.path.join(work, 'sites.txt'), './...'])
    ov = json.load(open(os.path.join(inst, 'overlay.part.json')))
    dirs = [('rt', 'zverif'), ('harness', 'zverif/hx'), ('conform/scripts', 'zverif/hx')]
    if msk:
        dirs.append(('harness_msk', 'zverif/hx'))
        im = os.path.join(work, 'imsk')
        os.makedirs(im, exist_ok=True)
        run([tool, '-dir', os.path.join(REPO, 'msk'), '-out', im, '.'])
        md = os.path.join(REPO, 'msk')
        inst = json.load(open(os.path.join(im, 'overlay.part.json')))
        for f in os.listdir(md):
            if f.endswith('.go') and not f.endswith('_test.go'):
                p = os.path.join(md, f)
                ov[os.path.join(REPO, 'streams/zverif/msk', f)] = inst.get(p, p)
    for base, pre in dirs:
        for r, ds, fs in os.walk(os.path.join(VERIF, base)):
            for f in fs:
                if f.endswith('.go'):
                    p = os.path.join(r, f)
                    ov[os.path.join(REPO, 'streams', pre, os.path.relpath(p, os.path.join(VERIF, base)))] = p
    json.dump({'Replace': ov}, open(os.path.join(work, 'overlay.json'), 'w'))
    fg = os.path.join(work, 'franz-go')
    run(['python3', os.path.join(VERIF, 'lib/patchkgo.py'), FG, fg, VERIF])
    gm = open(os.path.join(REPO, 'streams/go.mod')).read()
    gs = open(os.path.join(REPO, 'streams/go.sum')).read()
    if msk:
        for l in open(os.path.join(REPO, 'msk/go.mod')):
            w = l.replace('require', '').split()
            if len(w) > 1 and w[0] not in ('module', 'go') and '/' in w[0] and 'twmb' not in w[0]:
                gm += '\nrequire %s %s' % (w[0], w[1])
        gs += open(os.path.join(REPO, 'msk/go.sum')).read()
    open(os.path.join(work, 'go.mod'), 'w').write(gm + '\nreplace github.com/twmb/franz-go => %s\n' % fg)
    open(os.path.join(work, 'go.sum'), 'w').write(gs)
    out = os.path.join(work, 'hx')
    run(['go', 'build', '-trimpath', '-modfile', os.path.join(work, 'go.mod'), '-overlay', os.path.join(work, 'overlay.json'), '-o', out, './zverif/hx'],
        cwd=os.path.join(REPO, 'streams'))
    return out

if __name__ == '__main__':
    print(build(sys.argv[1], len(sys.argv) > 2))
