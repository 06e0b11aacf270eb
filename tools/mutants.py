#!/usr/bin/env python3
"""mutants.py N_WORKERS SEED COUNT OUT.jsonl [file substring...] : sampled line mutations of /repo's sources.

Each mutant is made in a scratch copy under /tmp/mut, kept when it compiles and the 80 stable tests pass, and then
shown to the checks (main stages only), stopping at the first that reports. Survivors are listed for reading: each is
either equivalent, or out of the properties' scope, or a gap."""
import json, os, random, re, shutil, subprocess, sys, threading, queue

CAP = os.environ.get("CAP", "5"); WK = os.environ.get("WK", "3")
N, SEED, COUNT, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
PAT = sys.argv[5:]
ROOT = '/tmp/mut'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           INSTA_UPDATE='no', CARGO_PROFILE_DEV_DEBUG='0', CARGO_BUILD_JOBS='4')
BASE = json.load(open('/opt/vp/BASELINE.json'))

def mutations(line):
    """(kind, new line) for every rule that applies to the line"""
    out = []
    s = line
    def sub(kind, pat, rep):
        for m in re.finditer(pat, s):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            new = s[:m.start()] + r + s[m.end():]
            if new != s: out.append((kind, new))
    sub('cmp', r' <= ', ' < '); sub('cmp', r' < ', ' <= '); sub('cmp', r' >= ', ' > '); sub('cmp', r' > (?!\{)', ' >= ')
    sub('cmp', r' < ', ' > '); sub('cmp', r' > ', ' < ')
    sub('eq', r' == ', ' != '); sub('eq', r' != ', ' == ')
    sub('bool', r' && ', ' || '); sub('bool', r' \|\| ', ' && ')
    sub('not', r'(?<=[ (])!(?=[a-z(])', '')
    sub('arith', r' \+ ', ' - '); sub('arith', r' - ', ' + '); sub('arith', r' \* ', ' + '); sub('arith', r' \+= ', ' -= ')
    sub('const', r'\b(\d+)\b(?!\.)', lambda m: str(int(m.group(1)) + 1))
    sub('const', r'\b([1-9]\d*)\b(?!\.)', lambda m: str(int(m.group(1)) - 1))
    sub('truefalse', r'\btrue\b', 'false'); sub('truefalse', r'\bfalse\b', 'true')
    sub('some', r'Some\((\w+)\)(?! =>)', 'None')
    sub('somedef', r'=> Some\(\*?(\w+)\)', '=> None')
    sub('iter', r'\.iter\(\)', '.iter().skip(1)')
    sub('iter', r'\.iter_mut\(\)', '.iter_mut().skip(1)'); sub('iter', r'\.take\(', '.skip(')
    sub('checked', r'checked_add', 'wrapping_add_'); 
    sub('sat', r'saturating_sub', 'wrapping_sub'); sub('sat', r'saturating_add', 'wrapping_add')
    sub('anyall', r'\.any\(', '.all('); sub('anyall', r'\.all\(', '.any(')
    sub('firstlast', r'\.first\(\)', '.last()'); sub('findpos', r'\.find\(', '.rfind(')
    sub('ceil', r'div_ceil', 'div_floor')
    sub('maxmin', r'\bmax\(', 'min('); sub('width', r' as u8\b', ' as u8 & 0x7f'); sub('width', r' as usize\b', ' as u16 as usize')
    sub('default', r'(\w+): (\w+)\.clone\(\)', r'\1: Default::default()')
    sub('deref', r'=> \*?(\w+) = ', r'=> *\1 |= ')
    if re.match(r'^\s+(self|\*?\w+)(\.\w+)*(\([^;]*\)\??|\s*=\s*[^;]+);\s*$', s) and not s.strip().startswith(('let ', 'use ', 'return', 'type ', 'const ', 'pub ')):
        out.append(('delstmt', re.match(r'^\s*', s).group() + '();\n'))
    if re.match(r'^\s+\w+(::\w+)* \{.*\} => .*,\s*$', s) or re.match(r'^\s+Self::\w+(\(.*\))? => .*,\s*$', s):
        out.append(('delarm', '\n'))
    if re.match(r'^\s*\| (Self|Input|Output|Receipt)::.*$', s): out.append(('delalt', '\n'))
    if re.match(r'^\s*(\w+): (\w+),\s*$', s):
        pass
    m = re.match(r'^(\s*)if (.*) \{\s*$', s)
    if m and ' let ' not in ' ' + m.group(2): out.append(('iffalse', f'{m.group(1)}if false && ({m.group(2)}) {{\n')); out.append(('iftrue', f'{m.group(1)}if true || ({m.group(2)}) {{\n'))
    return out

def nontest_lines(path):
    L = open(path).read().split('\n')
    i = 0; res = []; depth = None
    while i < len(L):
        if L[i].strip().startswith(('#[cfg(test)]', '#[cfg(all(test')):
            # the rest of these files is the test module
            j = i + 1
            d = 0; started = False
            while j < len(L):
                d += L[j].count('{') - L[j].count('}')
                if '{' in L[j]: started = True
                if started and d == 0: break
                j += 1
            i = j + 1; continue
        t = L[i].strip()
        if t and not t.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', 'fn ', 'pub fn', 'impl', 'pub struct', 'pub enum', 'pub trait', 'where', 'assert', 'debug_assert')):
            res.append(i)
        i += 1
    return L, res

allm = []
for dp, dn, fn in os.walk('/repo/src'):
    for f in sorted(fn):
        p = os.path.join(dp, f)
        rel = os.path.relpath(p, '/repo')
        if 'test' in rel or not f.endswith('.rs') or (PAT and not any(x in rel for x in PAT)): continue
        L, idx = nontest_lines(p)
        for i in idx:
            for k, new in mutations(L[i] + '\n'):
                allm.append((rel, i, k, L[i], new.rstrip('\n')))
allm.sort()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['line'] - 1, d['kind'], d['new']))
random.Random(SEED).shuffle(allm)
todo = [m for m in allm if (m[0], m[1], m[2], m[4]) not in done][:COUNT]
print(len(allm), 'possible;', len(todo), 'to run', flush=True)
Q = queue.Queue()
for m in todo: Q.put(m)
lock = threading.Lock()
ORDER = 'C02 C09 C14 C12 C05 C16 C25 C13 C20 C21 C04 C01 C11 C10 C22 C17 C18 C19 C26 C06 C15 C07 C08 C03 C23 C24'.split()

def run(cmd, env, cwd, t=900):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'

def worker(k):
    W = f'{ROOT}/w{k}'
    R = f'{W}/fuel-tx'
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    subprocess.check_call(f'git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD && cp /repo/Cargo.lock {R}/Cargo.lock', shell=True)
    subprocess.check_call(f'mkdir -p {W}/v && rsync -a --delete --exclude target /verif/harness {W}/v/ && rsync -a --exclude target /verif/nostd {W}/v/ && sed -i "s#path = \\"/repo\\"#path = \\"{R}\\"#" {W}/v/harness/Cargo.toml {W}/v/nostd/Cargo.toml', shell=True) if shutil.which('rsync') else subprocess.check_call(f'rm -rf {W}/v/harness/src {W}/v/nostd/src; mkdir -p {W}/v/harness {W}/v/nostd; cp -a /verif/harness/src /verif/harness/Cargo.* {W}/v/harness/; cp -a /verif/nostd/src /verif/nostd/Cargo.* {W}/v/nostd/; sed -i "s#path = \\"/repo\\"#path = \\"{R}\\"#" {W}/v/harness/Cargo.toml {W}/v/nostd/Cargo.toml', shell=True)
    te = dict(ENV, CARGO_TARGET_DIR=f'{W}/tt')
    while True:
        try: rel, i, kind, old, new = Q.get_nowait()
        except queue.Empty: return
        p = f'{R}/{rel}'
        orig = open(p).read()
        L = orig.split('\n'); assert L[i] == old, (rel, i)
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        rec = dict(file=rel, line=i + 1, kind=kind, old=old.strip(), new=new)
        try:
            rc, o = run(f'cargo test --manifest-path {R}/Cargo.toml --workspace --all-features --no-run --offline', te, R)
            if rc: rec['status'] = 'no-compile'
            else:
                rc, o = run(f'cargo test --manifest-path {R}/Cargo.toml --workspace --all-features --no-fail-fast --offline -- --test-threads 4', te, R, 120)
                bad = re.findall(r'^test (.*) \.\.\. FAILED$', o, re.M)
                if rc: rec['status'] = 'tests'; rec['by'] = bad[:3]
                else:
                    rc, o = run('cargo build --release --offline', dict(ENV, CARGO_TARGET_DIR=f'{W}/vt'), f'{W}/v/harness')
                    rc2, o2 = run('cargo build --release --offline', dict(ENV, CARGO_TARGET_DIR=f'{W}/nt'), f'{W}/v/nostd')
                    if rc or rc2: rec['status'] = 'harness-no-compile'; rec['log'] = (o + o2)[-600:]
                    else:
                        rec['status'] = 'SURVIVED'; odd = []
                        for c in ORDER:
                            rc, o = run(f'{W}/vt/release/vmon run {c} --tier quick --seed 1 --cap {CAP} --workers {WK} --evidence {W}/e.json --replays {W}/replays --known /verif/KNOWN_FINDINGS', dict(ENV, VMON_NOSTD=f'{W}/nt/release/vmon-nostd'), W, 200)
                            if rc == 1:
                                rec['status'] = 'caught'; rec['by'] = c; m = re.search(r'^  case.*$', o, re.M); rec['how'] = m.group()[:200] if m else ''
                                break
                            if rc: odd.append((c, rc, o[-300:]))
                        if odd: rec['odd'] = odd
        finally:
            open(p, 'w').write(orig)
        with lock:
            open(OUT, 'a').write(json.dumps(rec) + '\n')
            print(rec['status'], rel, i + 1, kind, rec.get('by', ''), '|', new.strip()[:110] if rec['status'] == 'SURVIVED' else '', flush=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
