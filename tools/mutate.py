#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl WORKERS SECONDS [FILE-REGEX [SEED]]: mutation testing of the checks in scratch copies under /tmp/mut.
Each mutant which compiles and passes the stable tests is run against the checks, those of the changed file first."""
import re, os, sys, json, random, subprocess, threading, time, shutil
OUT, NW, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
PAT = sys.argv[4] if len(sys.argv) > 4 else '.'
SEED = int(sys.argv[5]) if len(sys.argv) > 5 else 1
ALL = [c['property_id'] if 'property_id' in c else c.get('property', c.get('id')) for c in json.load(open('/verif/MANIFEST.json'))['checks']]
FIRST = {
 'src/ast/id': ['C01'], 'src/ast/ty': ['C02', 'C01', 'C03', 'C19', 'C24'], 'src/ast/iter': ['C02', 'C19'], 'src/ast/path': ['C03'], 'src/ast/enc': ['C09'],
 'src/ast/trans': ['C04', 'C14'], 'src/layout': ['C19'], 'src/typelib/transpile': ['C06', 'C20'], 'src/typelib/symb': ['C05', 'C06', 'C04'], 'src/typelib/comp': ['C05', 'C06'],
 'src/typelib/trans': ['C04'], 'src/typelib/ser': ['C10', 'C13', 'C11'], 'src/typelib/id': ['C07', 'C12', 'C10'], 'src/typelib/type_lib': ['C08', 'C04', 'C10'],
 'src/typesys/id': ['C18', 'C12'], 'src/typesys/iter': ['C19'], 'src/typesys/symb': ['C16', 'C15'], 'src/typesys/trans': ['C14', 'C15', 'C17'], 'src/typesys/type_sys': ['C17', 'C18', 'C09'],
 'src/value/dec': ['C22', 'C23'], 'src/value/enc': ['C21'], 'src/value/path': ['C26'], 'src/value/ston': ['C29'], 'src/value/typify': ['C24', 'C25', 'C21'], 'src/value/val': ['C26', 'C28', 'C25'],
 'src/value/conv': ['C27'], 'src/util': ['C33', 'C12'], 'src/stl': ['C34'], 'src/macros': ['C26'],
}
SW = [(' == ', ' != '), (' < ', ' <= '), (' > ', ' >= '), (' && ', ' || '), ('true', 'false'), ('.min', '.max'), ('u8::MAX', 'u16::MAX'), ('u32::MAX', 'u64::MAX'), ('::List', '::Set'),
      ('is_some', 'is_none'), ('.first', '.last'), ('is_char_enum', 'is_unicode_char'), ('is_byte', 'is_unicode_char'), ('.keys()', '.values()'), (' key', ' val'), ('Tuple', 'Struct'),
      ('.any(', '.all('), ('BTreeMap', 'IndexMap'), ('is_option', 'is_newtype'), ('.find', '.position'), ('name', 'ty')]
DEL = [' + 1', ' - 1', '.rev()', '.skip(1)', '.saturating_sub(1)', '?', '!']
def mutants():
    out = []
    for d, _, fs in sorted(os.walk('/repo/src')):
        if d.endswith('/bin'): continue
        for f in sorted(fs):
            p = os.path.join(d, f); rel = p[len('/repo/'):]
            if not re.search(PAT, rel): continue
            L = open(p).read().split('\n')
            for i, l in enumerate(L):
                t = l.strip()
                if t.startswith('#[cfg(test)]'): break
                if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', '/*', '*', 'panic!', 'pub mod')) or 'expect(' in t or 'unreachable!' in t: continue
                code = l.split('//')[0]
                cand = set()
                instr = lambda k: code[:k].count('"') % 2 == 1
                for a, b in SW:
                    for x, y in ((a, b), (b, a)):
                        for m in re.finditer(re.escape(x) + (r'\b' if x[-1].isalnum() else ''), code):
                            if not instr(m.start()) and (x[0] in ' .:' or m.start() == 0 or not (code[m.start()-1].isalnum() or code[m.start()-1] == '_')):
                                cand.add(code[:m.start()] + y + code[m.end():])
                for x in DEL:
                    for m in re.finditer(re.escape(x), code):
                        if instr(m.start()) or (x == '?' and 'write' in code): continue
                        if x == '!' and (code[m.start()+1:m.start()+2] in '=([' or (m.start() and (code[m.start()-1].isalnum()))): continue
                        cand.add(code[:m.start()] + code[m.end():])
                for m in re.finditer(r'(?<![\w."])(0x[0-9a-fA-F]+|\d+)(?![\w."])', code):
                    if instr(m.start()): continue
                    n = int(m.group(), 0)
                    cand.add(code[:m.start()] + str(n+1) + code[m.end():])
                    if n: cand.add(code[:m.start()] + str(n-1) + code[m.end():])
                for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
                    if re.search(r'(layout|util|/id|serialize|ston|vesper)', rel): cand.add(code[:m.start()] + '"x' + m.group(1) + '"' + code[m.end():])
                m = re.search(r' if .* =>', code)
                if m: cand.add(code[:m.start()] + ' =>' + code[m.end():])
                if re.match(r'(if|while) .*\{$', t):
                    ind = l[:len(l)-len(l.lstrip())]
                    if ' let ' not in t:
                        c = re.match(r'(if|while) (.*) \{$', t)
                        if c:
                            cand.add(f'{ind}{c.group(1)} false && ({c.group(2)}) {{'); 
                            if c.group(1) == 'if': cand.add(f'{ind}if true || ({c.group(2)}) {{')
                if t.endswith(';') and not t.startswith(('let ', 'pub ', 'const ', 'type ', 'static ', 'fn ', '}')) and re.match(r'[\w\*(]', t) and L[i-1].strip().endswith((';', '{', '}')):
                    cand.add('')
                for c in sorted(cand):
                    if c != l and c != code: out.append((rel, i, l, c))
    return out
M = mutants(); random.Random(SEED).shuffle(M)
done = set()
if os.path.exists(OUT):
    for x in open(OUT):
        x = json.loads(x); done.add((x['file'], x['line'], x['new']))
M = [m for m in M if (m[0], m[1], m[3]) not in done]
print(len(M), 'mutants', file=sys.stderr)
lock = threading.Lock(); end = time.time() + SECS
ENV = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', VERIF_SEED='1', VERIF_TIER='quick')
def run(cmd, cwd, t, **env):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace')
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ''
def worker(k):
    W = f'/tmp/mut/w{k}'
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
    os.makedirs(W + '/verif')
    subprocess.check_call(['cp', '-a', '/verif/harness', '/verif/known_findings.txt', W + '/verif/'])
    c = W + '/verif/harness/Cargo.toml'; s = open(c).read().replace('"/repo"', f'"{W}/repo"'); open(c, 'w').write(s)
    while time.time() < end:
        with lock:
            if not M: return
            rel, i, old, new = M.pop()
        p = f'{W}/repo/{rel}'; orig = open(p).read(); L = orig.split('\n'); L[i] = new
        open(p, 'w').write('\n'.join(L))
        r = {'file': rel, 'line': i, 'old': old.strip(), 'new': new, 'res': ''}
        t0 = time.time()
        try:
            rc, o = run(['cargo', 'test', '--workspace', '--all-features', '--no-fail-fast', '--offline'], W + '/repo', 300, CARGO_TARGET_DIR=W + '/t1', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_TEST_DEBUG='0')
            if rc: r['res'] = 'invalid' if 'could not compile' in o else 'tests'
            else:
                rc, o = run(['cargo', 'build', '--release', '--offline', '--locked'], W + '/verif/harness', 600, CARGO_TARGET_DIR=W + '/t2', CARGO_PROFILE_RELEASE_DEBUG='0', CARGO_PROFILE_RELEASE_INCREMENTAL='true', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='64', CARGO_PROFILE_RELEASE_LTO='off')
                if rc: r['res'] = 'harness does not build'; r['out'] = o[-1500:]
                else:
                    first = next((v for q, v in FIRST.items() if rel.startswith(q)), [])
                    for phase, ids in (('0.3', first), ('0.04', [x for x in ALL if x not in first]), ('1', first)):
                        for x in ids:
                            rc, o = run([W + '/t2/release/stprop', 'check', x], W + '/verif', 600, VERIF_ROOT=W + '/verif', STPROP_SCALE=phase)
                            if rc == 1 and 'VIOLATION' in o:
                                r['res'] = 'caught'; r['by'] = x; r['first'] = x in first; m = o[:300]; r['msg'] = m; break
                            if rc: r.setdefault('odd', []).append((x, rc))
                        if r['res']: break
                    if not r['res']: r['res'] = 'SURVIVED'
        finally: open(p, 'w').write(orig)
        r['t'] = round(time.time() - t0)
        with lock:
            open(OUT, 'a').write(json.dumps(r) + '\n')
T = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
[t.start() for t in T]; [t.join() for t in T]
