#!/usr/bin/env python3
"""Mutation survey: mutants.py MUTANTS.jsonl N SEED WORKERS OUT.
Applies N randomly chosen single changes (tools/mutate) to copies of /repo, one at a time,
and notes which check reports each first; survivors are for reading. Not a check: an
experiment on the checks, run by hand."""
import json, os, random, shutil, subprocess, sys, threading, time, queue
mutants = [json.loads(l) for l in open(sys.argv[1])]
n, seed, workers, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
random.Random(seed).shuffle(mutants)
q = queue.Queue()
for m in mutants[:n]: q.put(m)
ORDER = 'C04 C08 C21 C20 C03 C07 C22 C14 C15 C18 C10 C11 C09 C05 C06 C01 C02 C23 C17 C25 C26 C16 C13 C24 C12 C19 C27 C28'.split()
if os.environ.get('ORDER'): ORDER = os.environ['ORDER'].split()
lock = threading.Lock()
f = open(out, 'a')
ncpu = os.cpu_count()
def log(m, verdict, t0):
    with lock:
        f.write(json.dumps(dict(what=m['What'], verdict=verdict, s=round(time.time() - t0), mut=m)) + '\n'); f.flush()
def work(w):
    d = f'/tmp/mut/w{w}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/verif')
    shutil.copytree('/repo', d + '/repo')
    for x in ['mc', 'instr', 'stub', 'build.sh', 'env.sh', 'known_findings.txt']:
        s = '/verif/' + x
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f'{d}/verif/{x}')
    subprocess.run(f"sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/mc/go.mod; sed -i 's#instr.tool\" /repo#instr.tool\" {d}/repo#' {d}/verif/build.sh", shell=True, check=True)
    k = ncpu // workers
    cpus = ','.join(str(c) for c in range(w * k, w * k + k))
    def sh(cmd, timeout):
        p = subprocess.Popen(['taskset', '-c', cpus, 'bash', '-c', cmd], cwd=d + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait()
            return 'timeout', ''
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        t0 = time.time()
        path = f"{d}/repo/{m['file']}"
        src = open('/repo/' + m['file'], 'rb').read()
        open(path, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['End']:])
        try:
            rc, o = sh('. ./env.sh; cd ../repo && go build ./...', 200)
            if rc:
                log(m, 'nobuild', t0); continue
            b = d + '/b'
            shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
            rc, o = sh(f'./build.sh {b} plain', 400)
            if rc:
                log(m, 'nobuild-check ' + o[-300:], t0); continue
            built, odd, verdict = {'plain'}, [], None
            for p in ORDER:
                if p in ('C19', 'C27') and not os.path.exists(b + '/types'):
                    rc, o = sh(f'VERIF_TYPES=1 ./build.sh {b} plain && touch {b}/types', 600)
                    if rc: odd.append(f'{p}: building: {o[-200:]}')
                rc, o = sh(f'{b}/plain -variants -prop {p} -tier quick', 60)
                bins = []
                for v in o.split():
                    if v not in built:
                        rc, o2 = sh(f'./build.sh {b} {v}', 400)
                        if rc: odd.append(f'{p}: building {v}: {o2[-200:]}')
                        built.add(v)
                    bins.append(f'{v}={b}/{v}')
                rc, o = sh(f"{b}/plain -bins {','.join(bins)} -prop {p} -tier quick -out {d}/verif", 880)
                if rc == 1 and f'VIOLATION property={p}' in o:
                    verdict = p; break
                if rc != 0: odd.append(f'{p}: rc {rc}: {o[-300:]}')
            log(m, (verdict or 'SURVIVED') + (' ODD ' + ' | '.join(odd) if odd else ''), t0)
        finally:
            open(path, 'wb').write(src)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
