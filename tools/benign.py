#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, in a copy; every check must stay quiet on them.
benign.py [-w WORKERS] [-p "C01 C02 ..."] [ID[+ID...]...]   (an experiment on the checks, run by hand)"""
import os, re, shutil, subprocess, sys, threading, queue, time
FILES = ['generic_map.go','generic_set.go','string_map.go','string_set.go','bytes_map.go','bytes_set.go','int_map.go','int_set.go','arr_map.go','arr_set.go']
MAPS = FILES[0::2]; SETS = FILES[1::2]
E = {}
def edit(id):
    def d(f): E[id] = f; return f
    return d
def each(r, files, f):
    n = 0
    for x in files:
        s = open(f'{r}/{x}').read(); t = f(s, x)
        if t != s: n += 1; open(f'{r}/{x}', 'w').write(t)
    assert n, 'nothing changed'
def sub(old, new, s, count=0, must=False):
    t = s.replace(old, new) if not count else s.replace(old, new, count)
    assert not must or t != s, old
    return t
ITEM = re.compile(r'\*\(\*link\)\(unsafe\.Pointer\(uintptr\((l\.ptr|src)\) \+ uintptr\(([^)]*)\)\*linkSize\)\)')

@edit('b-slot-helper')
def _(r):
    def f(s, x):
        s = s.replace('bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))', 'bit, idx := l.slot(radix)')
        return s.replace('bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))', 'bit, idx = l.slot(radix)')
    each(r, FILES, f)
    each(r, ['amt.go'], lambda s, x: s.replace('import (\n\t"hash/maphash"\n', 'import (\n\t"hash/maphash"\n\t"math/bits"\n') + '''
func (l *link) slot(radix uint8) (bit uint32, idx uint8) {
	bit = uint32(1) << radix
	return bit, uint8(bits.OnesCount32(l.pmap & (bit - 1)))
}
''')

@edit('b-item-helper')
def _(r):
    def f(s, x):
        s = ITEM.sub(r'*itemAt(\1, int(\2))', s)
        if x == 'int_set.go': s += '\nvar _ unsafe.Pointer\n'
        return s.replace('(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(idx)*linkSize))', 'itemAt(l.ptr, int(idx))').replace('(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(i)*linkSize))', 'itemAt(l.ptr, int(i))')
    each(r, FILES, f)
    each(r, ['amt.go'], lambda s, x: s + '''
func itemAt(p unsafe.Pointer, i int) *link {
	return (*link)(unsafe.Add(p, uintptr(i)*linkSize))
}
''')

@edit('b-copy-shift')
def _(r):
    def f(s, x):
        s = re.sub(r'\tfor after := int\(count\) - 1; after >= int\(idx\); after-- \{\n.*\n.*\n\t*\}\n', '\tcopy(unsafe.Slice((*link)(l.ptr), int(count)+1)[idx+1:], unsafe.Slice((*link)(l.ptr), int(count))[idx:])\n', s)
        s = re.sub(r'for before := uint8\(0\); before < idx; before\+\+ \{\n.*\n.*\n\t*\}\n', 'copy(unsafe.Slice((*link)(l.ptr), int(idx)), unsafe.Slice((*link)(src), int(idx)))\n', s)
        return s
    each(r, FILES, f)

@edit('b-scan-bits')
def _(r):
    def f(s, x):
        s = re.sub(r'\tcount := uint8\(bits\.OnesCount32\(pmap\)\)\n\tfor i := uint8\(0\); i < count; i\+\+ \{\n\t\tbit := uint32\(1\) << uint8\(bits\.TrailingZeros32\(pmap\)\)\n', '\tfor i := 0; pmap != 0; i++ {\n\t\tbit := pmap & -pmap\n', s)
        return s
    each(r, FILES, f)

@edit('b-local-path')
def _(r):
    def f(s, x):
        s = re.sub(r'path := ([ms])\.path\[:0\]', 'var scratch [16]pathLink\n\tpath := scratch[:0]', s)
        return re.sub(r'\t[ms]\.path = \[12\]pathLink\{\}.*\n', '', s)
    each(r, FILES, f)
    each(r, ['amt.go'], lambda s, x: re.sub(r'\tpath  \[12\]pathLink.*\n', '', s))

@edit('b-root-order')
def _(r):
    each(r, ['amt.go'], lambda s, x: sub('''	link
	seed  maphash.Seed
	len   uint64
	dep   uint64
	_     [3]uint64    // pad to 64-byte alignment
	items [16]link     // referenced by link
	path  [12]pathLink // scratch for traversal path during deletion
''', '''	len, dep uint64
	items [16]link     // referenced by link
	link
	path  [12]pathLink // scratch for traversal path during deletion
	seed  maphash.Seed
''', s, must=True))

@edit('b-key-first')
def _(r):
    def f(s, x):
        s = s.replace('	v V\n	k K\n', '	k K\n	v V\n').replace('	v V\n	k string\n', '	k string\n	v V\n').replace('	v V\n	k []byte\n', '	k []byte\n	v V\n')
        return re.sub(r'&(strkv|byteskv|kv)\[([^\]]*)\]\{value, key\}', r'&\1[\2]{key, value}', s)
    each(r, MAPS, f)

@edit('b-arrays')
def _(r):
    def f(s, x):
        i = s.index('	switch {\n	case capacity <= 4:'); j = s.index('\n}\n', i)
        return s[:i] + '''	blocks := (int(capacity) + 3) / 4
	if blocks < 1 {
		blocks = 1
	}
	a := make([]link, 4*blocks)
	return unsafe.Pointer(&a[0])''' + s[j:]
    each(r, ['amt.go'], f)

@edit('b-get-own-walk')
def _(r):
    def f(s, x):
        if x in SETS: return s
        m = re.search(r'(\tif ptr := m\.Ptr\(key\); ptr != nil \{\n\t\tvalue, ok = \*ptr, true\n\t\}\n\treturn\n)', s)
        s = s.replace(m.group(1), '\tptr := m.Ptr(key)\n\tok = ptr != nil\n\tif ok {\n\t\tvalue = *ptr\n\t}\n\treturn value, ok\n')
        m = re.search(r'\tif m\.root != nil \{\n\t\tif ptr := m\.Ptr\(key\); ptr != nil \{\n\t\t\tvalue = \*ptr\n\t\t\}\n\t\}\n\treturn\n', s)
        return s.replace(m.group(0), '\tif m.Nil() {\n\t\treturn\n\t}\n\tvalue, _ = m.Get(key)\n\treturn value\n')
    each(r, MAPS, f)

@edit('b-set-via-ptr')
def _(r):
    def f(s, x):
        if x == 'generic_map.go': return s
        return re.sub(r'(func \(m \w+\[[^\]]*\]\) Set\(key \w+|func \(m \w+\[[^\]]*\]\) Set\(key \[\]byte)(, value V\) \{\n)', r'\1\2\tif p := m.Ptr(key); p != nil {\n\t\t*p = value\n\t\treturn\n\t}\n', s)
    each(r, MAPS, f)

@edit('b-del-checks-first')
def _(r):
    def f(s, x):
        if x.startswith('generic'): return s
        has = 'm.Ptr(key) == nil' if x in MAPS else '!s.Has(key)'
        return re.sub(r'(\) Del\(key [^)]*\) \{\n)', r'\1\tif ' + has + ' {\n\t\treturn\n\t}\n', s)
    each(r, FILES, f)

@edit('b-mod-set-mutual')
def _(r):
    # Set by Mod
    def f(s, x):
        m = re.search(r'\) Set\(key ([^,]*), value V\) \{\n', s)
        i = m.end(); j = s.index('\n}\n', i)
        return s[:i] + '\tm.Mod(key, func(p *V, _ bool) { *p = value })' + s[j:]
    each(r, MAPS, f)

@edit('b-noop')
def _(r):
    def f(s, x):
        s = re.sub(r'\n(func \([ms] [^\n]*\{)\n', r'\n\1\n\tif false {\n\t\tpanic("unreachable")\n\t}\n', s)
        return s + '\n// end of file\n'
    each(r, FILES, f)

@edit('b-len-early')
def _(r):
    # count before linking, entries allocated at the top of the insertion path
    def f(s, x):
        v = 'm' if x in MAPS else 's'
        return s.replace(f'''	l.pmap |= bit
	l.tmap |= bit
	{v}.len++
	{v}.dep += uint64(d)
''', f'''	{v}.dep, {v}.len = {v}.dep+uint64(d), {v}.len+1
	l.tmap, l.pmap = l.tmap|bit, l.pmap|bit
''')
    each(r, FILES, f)

@edit('b-has-recursive')
def _(r):
    def f(s, x):
        i = s.index('func (s IntSet) Has('); j = s.index('\n}\n', i) + 3
        return s[:i] + '''func (s IntSet) Has(key IntKey) bool {
	return s.find(&s.link, key, 0, s.hash(key, 0))
}

func (s IntSet) hash(key IntKey, iter int) uint64 {
	kb := intbytes(key)
	var hw maphash.Hash
	hw.SetSeed(s.seed)
	for ; iter >= 0; iter-- {
		hw.Write(kb[:])
	}
	return hw.Sum64()
}

func (s IntSet) find(l *link, key IntKey, d int, hd uint64) bool {
	if d != 0 && d%16 == 0 {
		hd = s.hash(key, d/16)
	}
	digit := uint32(1) << (hd & 15)
	if l.pmap&digit == 0 {
		return false
	}
	item := (*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(bits.OnesCount32(l.pmap&(digit-1)))*linkSize))
	if l.tmap&digit == 0 {
		return s.find(item, key, d+1, hd>>4)
	}
	return uint64(item.pmap)|uint64(item.tmap)<<32 == uint64(key)
}
''' + s[j:]
    each(r, ['int_set.go'], f)

@edit('b-split-helper')
def _(r):
    # the wasted-level loop of StringSet.Add builds its branch apart
    def f(s, x):
        i = s.index(') Add('); a = s.index('\t\t// replace with new branch', i); b = s.index('\t\tfor {\n', a)
        v = 's'
        s = s[:a] + '\t\tvar branch link\n\t\tslot, cd := item, d\n\t\titem = &branch\n' + s[b:]
        b = s.index('\t\t\t\ts.len++\n', a)
        return s[:b] + '\t\t\t\t*slot = branch\n\t\t\t\tl.tmap &^= bit\n\t\t\t\ts.dep -= uint64(cd)\n' + s[b:]
    each(r, ['string_set.go'], f)

@edit('b-maphash-bytes')
def _(r):
    def f(s, x):
        # first hash by the one-shot function, later ones by HashBytes
        return s.replace('''	var hw maphash.Hash
	hw.SetSeed(m.seed)
	hw.Write(kb[:])
	hd, l, d := hw.Sum64(), &m.link, uint8(0)
''', '''	hd, l, d := maphash.Bytes(m.seed, kb[:]), &m.link, uint8(0)
''').replace('''				hw.Write(kb[:])
				hd = hw.Sum64()
''', '''				hd = HashBytes(kb[:], m.seed, uint(d/16))
''').replace('''				hw.Write(kb[:])
				chw.Write(ckb[:])
				hd, chd = hw.Sum64(), chw.Sum64()
''', '''				chw.Write(ckb[:])
				hd, chd = HashBytes(kb[:], m.seed, uint(d/16)), chw.Sum64()
''')
    each(r, ['int_map.go', 'arr_map.go'], f)

@edit('b-iter-order-cond')
def _(r):
    # inverted conditions and early continue
    def f(s, x):
        s = s.replace('			if d&0xF != 0 { // hash bits available\n				hd >>= 4\n			} else { // rehash\n', '			hd >>= 4\n			if d%16 == 0 { // rehash\n')
        s = s.replace('	if (count != 0 && count%4 != 0) || d == 0 { // array slot available', '	if full := count == 0 || count&3 == 0; d == 0 || !full { // array slot available')
        return s
    each(r, FILES, f)

@edit('b-popcount-loop')
def _(r):
    each(r, FILES, lambda s, x: s.replace('bits.OnesCount32(', 'onesCount('))
    each(r, ['amt.go'], lambda s, x: s + '''
func onesCount(x uint32) int {
	n := 0
	for i := 0; i < 16; i++ {
		if x&(1<<i) != 0 {
			n++
		}
	}
	return n
}
''')
    each(r, FILES, lambda s, x: s + '\nvar _ = bits.UintSize\n')

@edit('b-popcount-table')
def _(r):
    each(r, FILES, lambda s, x: s.replace('bits.OnesCount32(', 'onesCount(') + '\nvar _ = bits.UintSize\n')
    each(r, ['amt.go'], lambda s, x: s.replace('	"hash/maphash"\n', '	"hash/maphash"\n	"math/bits"\n	"sync"\n', 1) + '''
var counts struct {
	once sync.Once
	tab  *[1 << 16]uint8
}

func onesCount(x uint32) int {
	counts.once.Do(func() {
		counts.tab = new([1 << 16]uint8)
		for i := range counts.tab {
			counts.tab[i] = uint8(bits.OnesCount(uint(i)))
		}
	})
	return int(counts.tab[uint16(x)])
}
''')

@edit('b-scan-stack')
def _(r):
    def f(s, x):
        m = re.search(r'\n(func \w+[sS]can[^\n]*\{\n)', s)
        i = m.end(); j = s.index('\n}\n', i)
        body = s[i:j]
        leaf = body[body.index('		if tmap&bit != 0 {\n') + len('		if tmap&bit != 0 {\n'):body.index('		} else if')]
        return s[:i] + '''	type frame struct {
		l    *link
		rest uint32
		i    uintptr
	}
	todo := []frame{{l: l, rest: l.pmap}}
	for len(todo) != 0 {
		f := &todo[len(todo)-1]
		if f.rest == 0 {
			todo = todo[:len(todo)-1]
			continue
		}
		bit := uint32(1) << bits.TrailingZeros32(f.rest)
		item := (*link)(unsafe.Add(f.l.ptr, f.i*linkSize))
		f.rest ^= bit
		f.i++
		if f.l.tmap&bit == 0 {
			todo = append(todo, frame{l: item, rest: item.pmap})
			continue
		}
''' + leaf.replace('\t\t\t', '\t\t') + '	}\n	return true' + s[j:]
    each(r, FILES, f)

@edit('b-entry-first')
def _(r):
    def f(s, x):
        i = s.index(') Set('); j = s.index('\n}\n', i); b = s[i:j]
        m = re.search(r'\t\t\t\tkv := (&\w+\[V\]\{value, key\})\n', b)
        b = b.replace(m.group(0), '', 1).replace('		// replace with new branch', '		kv := ' + m.group(1) + '\n		// replace with new branch', 1)
        return s[:i] + b + s[j:]
    each(r, ['string_map.go', 'bytes_map.go'], f)

@edit('b-del-recursive')
def _(r):
    def f(s, x):
        i = s.index('func (s StringSet) Del('); j = s.index('\n}\n', i) + 3
        return s[:i] + '''func (s StringSet) Del(key string) {
	hw := new(maphash.Hash)
	hw.SetSeed(s.seed)
	hw.WriteString(key)
	if s.remove(&s.link, key, hw, hw.Sum64(), 0) {
		s.len--
	}
}

func (s StringSet) remove(l *link, key string, hw *maphash.Hash, hd uint64, d uint8) bool {
	bit := uint32(1) << (hd & 15)
	if l.pmap&bit == 0 {
		return false
	}
	idx := bits.OnesCount32(l.pmap & (bit - 1))
	item := (*link)(unsafe.Add(l.ptr, uintptr(idx)*linkSize))
	if l.tmap&bit == 0 {
		d++
		if hd >>= 4; d%16 == 0 {
			hw.WriteString(key)
			hd = hw.Sum64()
		}
		if !s.remove(item, key, hw, hd, d) {
			return false
		}
		if item.pmap == item.tmap && item.pmap&(item.pmap-1) == 0 {
			*item = *(*link)(item.ptr)
			l.tmap |= bit
			s.dep--
		}
		return true
	}
	if (*strkv[struct{}])(item.ptr).k != key {
		return false
	}
	s.dep -= uint64(d)
	l.pmap &^= bit
	l.tmap &^= bit
	count := bits.OnesCount32(l.pmap)
	old := unsafe.Slice((*link)(l.ptr), count+1)
	if count%4 == 0 && d != 0 {
		l.ptr = newLinkArray(uint8(count))
		copy(unsafe.Slice((*link)(l.ptr), count), old[:idx])
	}
	copy(unsafe.Slice((*link)(l.ptr), count)[idx:], old[idx+1:])
	if count%4 != 0 || d == 0 {
		old[count] = link{}
	}
	return true
}
''' + s[j:]
    each(r, ['string_set.go'], f)

@edit('b-version')
def _(r):
    # a counter of modifications that nobody reads
    each(r, ['amt.go'], lambda s, x: s.replace('	_     [3]uint64    // pad', '	mods  uint64\n	_     [2]uint64    // pad'))
    each(r, FILES, lambda s, x: re.sub(r'\n(\t+)([ms])\.len(\+\+|--)\n', r'\n\1\2.len\3\n\1\2.mods++\n', s))

def main():
    a = sys.argv[1:]; workers = 2; props = None
    while a and a[0].startswith('-'):
        if a[0] == '-w': workers = int(a[1])
        if a[0] == '-p': props = a[1].split()
        a = a[2:]
    props = props if props is not None else ['C%02d' % i for i in range(1, 29)]
    q = queue.Queue()
    for id in (a or E): q.put(id)
    ncpu = os.cpu_count()
    def work(w):
        cpus = ','.join(str(c) for c in range(w * (ncpu // workers), (w + 1) * (ncpu // workers)))
        while True:
            try: id = q.get_nowait()
            except queue.Empty: return
            d = f'/tmp/benign/{id}'
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif/evidence')
            try:
                shutil.copytree('/repo', d + '/repo')
                for x in ['mc', 'instr', 'stub', 'build.sh', 'check.sh', 'env.sh', 'known_findings.txt']:
                    s = '/verif/' + x
                    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, f'{d}/verif/{x}')
                subprocess.run(f"sed -i 's#=> /repo#=> {d}/repo#' {d}/verif/mc/go.mod; sed -i 's#instr.tool\" /repo#instr.tool\" {d}/repo#' {d}/verif/build.sh", shell=True, check=True)
                try:
                    for e in id.split('+'): E[e](d + '/repo')
                except AssertionError as e: print(id, 'EDIT FAILED', e, flush=True); continue
                def sh(c, t=900):
                    p = subprocess.run(['taskset', '-c', cpus, 'bash', '-c', c], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
                    return p.returncode, p.stdout
                rc, o = sh('. verif/env.sh; cd repo; gofmt -w *.go; go vet -unsafeptr=false . ; go test -count=1 . ')
                if rc: print(id, 'build or tests fail:', o[-1500:], flush=True); continue
                bad = 0
                for p in props:
                    t0 = time.time()
                    rc, o = sh(f'cd verif; ./check.sh {p} quick')
                    if rc: bad += 1; print(id, p, 'ALARM rc', rc, o[:500], flush=True)
                print(id, 'quiet' if not bad else f'{bad} alarms', flush=True)
            finally: shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
