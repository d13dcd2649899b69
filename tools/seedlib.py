"""Helper to plant bugs: makes patch, demo and meta for a change to /repo, and checks them."""
import os, re, shutil, subprocess, sys, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# run in /repo: exit 0 on the unchanged tree
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mh=
[ -f "$d/maphash.go.txt" ] && mh=",\"$(go env GOROOT)/src/hash/maphash/maphash.go\": \"$d/maphash.go.txt\""
cat >"$t/o.json" <<J
{"Replace": {"$PWD/zz_demo_test.go": "$d/demo_test.go.txt"$mh}}
J
timeout 280 go test -vet=off -count=1 @FLAGS@ -overlay "$t/o.json" -run '^TestDemo$' .
'''
HELP = '''
var forced = map[string]uint64{}

// force fixes the successive hashes of a key's bytes (needs the stand-in for hash/maphash).
func force(key []byte, hs ...uint64) {
	if len(maphash.VerifTables) == 0 {
		for i := 0; i < 50; i++ {
			maphash.VerifTables = append(maphash.VerifTables, forced)
		}
	}
	var data []byte
	for _, h := range hs {
		data = append(data, key...)
		forced[string(data)] = h
	}
}
'''
def sh(cmd, cwd, **k):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def func_span(src, fn):
    """span of the method or function whose header starts with fn"""
    i = src.index(fn)
    j = src.index('\n}\n', i) + 3
    return i, j
def plant(id, prop, needs, breaks, edits, demo, stub=False, flags='', imports=()):
    """edits: list of (file, function header or None, old, new[, occurrence])"""
    out = f'{V}/seeded/{id}'
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        shutil.copytree('/repo', tmp + '/r', symlinks=True)
        r = tmp + '/r'
        for e in edits:
            f, fn, old, new = e[:4]
            src = open(f'{r}/{f}').read()
            a, b = func_span(src, fn) if fn else (0, len(src))
            body = src[a:b]
            n = body.count(old)
            occ = e[4] if len(e) > 4 else None
            if n == 0 or (n > 1 and occ is None):
                print(f'{id}: {f} {fn}: {n} occurrences of {old!r}'); return False
            if occ is None: body = body.replace(old, new)
            elif occ == 'all': body = body.replace(old, new)
            else:
                p = -1
                for _ in range(occ + 1): p = body.index(old, p + 1)
                body = body[:p] + new + body[p + len(old):]
            open(f'{r}/{f}', 'w').write(src[:a] + body + src[b:])
        os.makedirs(out, exist_ok=True)
        d = sh('gofmt -l *.go | grep -v ^amt.go; git diff', r).stdout
        if not d.startswith('diff'): print(f'{id}: gofmt or diff: {d[:300]}'); return False
        open(out + '/patch.diff', 'w').write(d)
        imp = ['testing'] + list(imports) + (['hash/maphash'] if stub else [])
        src = 'package amt\n\nimport (\n' + ''.join(f'\t"{i}"\n' for i in sorted(set(imp))) + ')\n' + (HELP if stub else '') + '\nfunc TestDemo(t *testing.T) {\n' + demo.strip('\n') + '\n}\n'
        src = src.replace('//OUTSIDE\n', '}\n') if False else src
        if '//OUTSIDE' in src:
            body, rest = src.split('//OUTSIDE', 1)
            rest = rest.rstrip()
            assert rest.endswith('}')
            src = body.rstrip() + '\n}\n' + rest[:-1]
        src = subprocess.run(['gofmt'], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if src.returncode: print(id, src.stderr); return False
        open(out + '/demo_test.go.txt', 'w').write(src.stdout)
        if stub: shutil.copy(V + '/stub/maphash.go', out + '/maphash.go.txt')
        open(out + '/demo.sh', 'w').write(DEMO_SH.replace('@FLAGS@', flags).replace('-count=1  ', '-count=1 '))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        env = '. /opt/vp/env.sh; '
        # original lines only?
        removed = [l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
        b = sh(env + 'go build ./...', r)
        if b.returncode: print(id, 'does not build', b.stdout[:800]); return False
        t = sh(env + 'go test -vet=off -count=1 ./...', r)
        if t.returncode: print(id, 'stable tests fail', t.stdout[-600:]); return False
        c = sh(f'{out}/demo.sh', '/repo')
        if c.returncode: print(id, 'demo fails on the clean tree', c.stdout[-1500:]); return False
        p = sh(f'{out}/demo.sh', r)
        if p.returncode == 0: print(id, 'demo passes with the patch'); return False
        if 'build failed' in p.stdout: print(id, 'demo does not build with the patch', p.stdout[:500]); return False
        print(id, 'ok:', [l.strip() for l in p.stdout.splitlines() if l.strip()][:2])
        return True
    finally:
        shutil.rmtree(tmp)
