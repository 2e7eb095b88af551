#!/usr/bin/env python3
"""Mutation campaign over the repository: finds changes no check notices (not a check itself).
usage: mutants.py WORKERS OUT CRATE CHECKS(comma) SCALE SAMPLE SEED FILE[:FROM-TO]...
Works on copies in /tmp/mut/wN; /repo and /verif are only read."""
import os, random, re, shutil, subprocess, sys, threading, queue

def lines_of(path):
    out, ls = [], open(path).read().split('\n')
    for i, l in enumerate(ls):
        if '#[cfg(test)]' in l: break
        out.append(l)
    return ls, len(out)

SUBS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
        (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
        (r' << ', ' >> '), (r' >> ', ' << '), (r' \| ', ' & '), (r' & ', ' | '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif !', 'if '), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
        (r'(\w[\w.]*)\.is_empty\(\)', r'!\1.is_empty()'), (r'\.is_err\(\)', '.is_ok()'), (r'\.is_ok\(\)', '.is_err()'),
        (r'\.skip\((\d+)\)', '.skip(0)'), (r'\.take\((\w+)\)', ''), (r'\.rev\(\)', ''), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
        (r'\?;', '.ok();'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'write_all\(', 'write('), (r'\.flush\(\)\?', '.by_ref()'),
        (r'\bfirst\(\)', 'last()'), (r'\blast\(\)', 'first()'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.filter\(\|', '.filter(|'),
        (r'\bstarts_with\(', 'ends_with('), (r'\.or_else\(', '.and_then('), (r'\bunwrap_or_default\(\)', 'unwrap()'),
        (r'insert\(0, ', 'push('), (r'SeekFrom::Start', 'SeekFrom::Current'), (r'\.checked_', '.wrapping_'), (r'saturating_', 'wrapping_'),
        (r'\.sort\w*\([^()]*(\([^()]*\))?[^()]*\);', ';'), (r'\.dedup\(\);', ';'), (r'NONE', 'ALL'), (r'\.trim\w*\(\)', ''), (r'\.clone\(\)\.rev', '.clone()'),
        (r'u16', 'u8'), (r'u32', 'u16'), (r'i32', 'i16'), (r'u64', 'u32'), (r'i64', 'i32')]

def mutants(path, lo=0, hi=10**9):
    ls, n = lines_of(path)
    for i in range(max(lo - 1, 0), min(n, hi)):
        l = ls[i]; s = l.strip()
        if not s or s.startswith(('//', 'use ', '#', 'log::', 'pub use', 'mod ', 'pub mod')) or 'log::' in s: continue
        for a, b in SUBS:
            for m in re.finditer(a, l):
                yield i, l[:m.start()] + m.expand(b) + l[m.end():]
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', l):
            yield i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
        if s.endswith(';') and not s.startswith(('let', 'return', 'pub', 'const', 'static', 'type', '}')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            yield i, ''
            if i + 1 < n:
                t = ls[i + 1].strip()
                if t.endswith(';') and not t.startswith(('let', 'return', '}')) and t.count('(') == t.count(')'):
                    yield i, ls[i + 1] + '\n' + l + '\x00'   # swap
        m = re.match(r'(\s*)(\.[a-z_]+\(.*\))$', l)
        if m: yield i, ''     # a link of a call chain goes
        m = re.match(r'(\s*)([\w:]+(?:\([^=]*\)| \{[^=]*\})?) => (.*),$', l)
        if m and i + 1 < n:
            m2 = re.match(r'(\s*)([\w:]+(?:\([^=]*\)| \{[^=]*\})?) => (.*),$', ls[i + 1])
            if m2 and m.group(3) != m2.group(3):
                yield i, f'{m.group(1)}{m.group(2)} => {m2.group(3)},'

def main():
    W, OUT, CRATE, CHECKS, SCALE, SAMPLE, SEED = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4].split(','), sys.argv[5], int(sys.argv[6]), int(sys.argv[7])
    todo = []
    for f in sys.argv[8:]:
        lo, hi = 0, 10**9
        if ':' in f:
            f, r = f.split(':'); lo, hi = map(int, r.split('-'))
        todo += [(f, i, t) for i, t in mutants('/repo/' + f, lo, hi)]
    random.Random(SEED).shuffle(todo)
    todo = todo[:SAMPLE]
    q = queue.Queue()
    for t in todo: q.put(t)
    out, lock = open(OUT, 'a'), threading.Lock()
    print(len(todo), 'mutants'); sys.stdout.flush()
    exe = 'simcore' if CRATE == 'simcore' else 'redsim'
    def work(k):
        w = f'/tmp/mut/w{OUT.replace("/", "_")}{k}'
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        subprocess.run(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', '/repo/', w + '/repo/'], check=False) if shutil.which('rsync') else \
            subprocess.run(f"mkdir -p {w}/repo && cd /repo && git archive HEAD | tar x -C {w}/repo", shell=True)
        subprocess.run(f"mkdir -p {w}/verif && cd /verif && git archive HEAD | tar x -C {w}/verif && cp -r /verif/{CRATE}/Cargo.lock {w}/verif/{CRATE}/", shell=True)
        subprocess.run(f"cd {w}/verif && find . -name Cargo.toml | xargs sed -i 's#\"/repo/#\"{w}/repo/#g' && grep -rl '/repo/' {CRATE}/src | xargs -r sed -i 's#\"/repo/#\"{w}/repo/#g'; mkdir -p evidence replays", shell=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN='1.77.2', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=w + '/target', RUSTFLAGS='--cap-lints warn',
                   VERIF_DIR=w + '/verif', VERIF_SEED='1', VERIF_TIER='quick', SIM_SCALE=SCALE, SIM_JOBS='2')
        def build():
            return subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=f'{w}/verif/{CRATE}', env=env, capture_output=True)
        r = build()
        if r.returncode: print('worker does not build', r.stderr.decode()[-2000:]); return
        while True:
            try: f, i, t = q.get_nowait()
            except queue.Empty: return
            p = f'{w}/repo/{f}'; orig = open(p).read(); ls = orig.split('\n'); old = ls[i]
            if t.endswith('\x00'): ls[i:i + 2] = t[:-1].split('\n')
            else: ls[i] = t
            open(p, 'w').write('\n'.join(ls))
            res = 'nobuild'
            try:
                if build().returncode == 0:
                    res = 'SURVIVED'
                    for c in CHECKS:
                        try: x = subprocess.run([f'{w}/target/debug/{exe}', 'check', c], env=env, capture_output=True, timeout=600, cwd=w + '/verif')
                        except subprocess.TimeoutExpired: res = f'timeout {c}'; break
                        if x.returncode: res = f'killed {c} rc={x.returncode}'; break
            finally:
                open(p, 'w').write(orig)
            with lock:
                out.write(f'{res}\t{f}:{i+1}\t{old.strip()}\t=>\t{t.strip()}\n'); out.flush()
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print('done')
main()
