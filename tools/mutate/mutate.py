#!/usr/bin/env python3
"""mutate.py LIST | RUN OUT [START [STEP]] : line-level mutants of the library; those that build and pass the
existing tests are run against the checks until one of them reports a violation. Works on the copies that setup.sh makes."""
import re, subprocess, sys, os, random, time, json
FILES = {
 'ipmb/src/bus_controller.rs': 'all', 'ipmb/src/label.rs': 'all', 'ipmb/src/lib.rs': 'all', 'ipmb/src/memory_registry.rs': 'all',
 'ipmb/src/message.rs': 'all', 'ipmb/src/platform/linux.rs': 'all', 'ipmb/src/platform/linux/fd.rs': 'all', 'ipmb/src/platform/linux/io_mul.rs': 'all', 'ipmb/src/platform/linux/encoded_message.rs': 'all', 'ipmb/src/platform/mod.rs': 'all', 'ipmb/src/util/mod.rs': 'all',
 'ipmb-ffi/src/lib.rs': 'ffi', 'ipmb-ffi/ipmb.cc': 'ffi', 'ipmb-js/src/lib.rs': 'js'}
ORDER = {
 'bus_controller.rs': '01 02 03 06 09 10 12 19 16 22 08 07 04 14 17 05',
 'label.rs': '17 12 01 02 20 23',
 'lib.rs': '01 03 05 07 08 11 19 22 10 16 06 18 02 14 12 20 21',
 'memory_registry.rs': '15 23 20 14 13', 'message.rs': '05 04 06 01 12 02 20 23',
 'linux.rs': '04 16 12 03 09 22 18 11 13 07 08 10 01 06', 'fd.rs': '16 04 12 13', 'io_mul.rs': '22 01 03 16 11 08', 'encoded_message.rs': '04 12 16 03 22 06 17 09 10', 'mod.rs': '13 14 15 04 16 12 11 22 08 20'}
def mutants():
    out = []
    for f in FILES:
        lines = open('/tmp/mr/' + f).read().split('\n')
        test = False
        for i, l in enumerate(lines):
            if '#[cfg(test)]' in l: test = True
            if '/*' in l: test = True
            if '*/' in l: test = False
            if test: continue
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('mod '): continue
            code = l.split('//')[0]
            def add(new, what):
                if new != l: out.append((f, i, new, what))
            for a, b in [('==', '!='), ('!=', '=='), (' && ', ' || '), (' || ', ' && '), (' <= ', ' < '), (' >= ', ' > '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), ('true', 'false'), ('false', 'true'), ('..=', '..'), ('&&', '||')]:
                for m in re.finditer(re.escape(a), code):
                    if a == '&&' and code[m.start()-1:m.start()] == ' ': continue
                    add(l[:m.start()] + b + l[m.end():], f'{a}->{b}')
            for m in re.finditer(r' < | > ', code):
                if '->' in code and 'fn ' in code: continue
                add(l[:m.start()] + {' < ': ' <= ', ' > ': ' >= '}[m.group()] + l[m.end():], m.group().strip() + '=')
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
                n = int(m.group(1))
                for v in {n + 1, 0 if n else 1}:
                    add(l[:m.start()] + str(v) + l[m.end():], f'{n}->{v}')
            m = re.match(r'^(\s*)(\} else )?if (?!let)(.*) \{$', code)
            if m and '&&' not in code: add(f'{m.group(1)}{m.group(2) or ""}if !({m.group(3)}) {{', 'negate')
            if f.endswith('.cc') and s.endswith(';') and re.match(r'^[a-z_:>.-]+\(.*\);$', s): add(l[:len(l) - len(l.lstrip())] + ';', 'delete')
            if f.endswith('.rs') and s.endswith(';') and not re.match(r'(let|use|pub|type|const|static|return|break|continue|extern)\b', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not s.startswith((')', '}', '.')):
                add(l[:len(l) - len(l.lstrip())] + '();', 'delete')
            if s == 'continue;': add(l.replace('continue', 'break'), 'break')
            if s == 'break;': add(l.replace('break', 'continue'), 'continue')
            if re.match(r'^\s*let _ = .*;$', code): add(l[:len(l) - len(l.lstrip())] + '();', 'delete')
            for a, b in [('.min(', '.max('), ('.max(', '.min('), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'), ('is_ok()', 'is_err()'), ('is_err()', 'is_ok()'), ('push_back', 'push_front'), ('pop_front', 'pop_back'), ('.any(', '.all('), ('.all(', '.any('), ('read(', 'write('), ('.clear();', ';')]:
                if a in code: add(l.replace(a, b, 1), f'{a}->{b}')
    return out
def sh(cmd, t):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace', start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run("pkill -f 'mc/target/x86_64-unknown-linux-gnu/debug/(mc|ffi|js) check'; pkill -f target/debug/deps", shell=True)
        return 124, ''
def main():
    ms = mutants()
    if sys.argv[1] == 'LIST':
        for k, m in enumerate(ms): print(k, m[0], m[1] + 1, m[3], '|', m[2].strip())
        return
    random.Random(7).shuffle(ms)
    out = open(sys.argv[2], 'a')
    stop = time.time() + float(os.environ.get('HOURS', '1')) * 3600
    env = 'cd /tmp/mv && VERIF_SEED=1 VERIF_TIER=quick '
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    for k in range(start, len(ms)):
        if time.time() > stop: break
        f, i, new, what = ms[k]
        p = '/tmp/mr/' + f
        src = open(p).read()
        ls = src.split('\n'); old = ls[i]; ls[i] = new
        t0 = time.time()
        def say(r):
            print(f'{k} {f}:{i+1} {what} [{old.strip()}] -> {r} ({time.time()-t0:.0f} s)', file=out, flush=True)
        try:
            open(p, 'w').write('\n'.join(ls))
            rc, o = sh('. /tmp/mr.env && cargo build --workspace --offline 2>&1', 300)
            if rc: say('no build'); continue
            rc, o = sh('. /tmp/mr.env && timeout 200 cargo test --workspace --no-fail-fast --offline', 300)
            if rc: say('tests'); continue
            kind = FILES[f]
            ids = {'ffi': '20', 'js': '21 23'}.get(kind) or ORDER[os.path.basename(f)]
            res = 'SURVIVED'
            for c in ids.split()[:9]:
                rc, o = sh(env + f'./check.sh C{c}', 900)
                if rc == 1 and 'VIOLATION' in o: res = f'caught by C{c}: ' + [l for l in o.split('\n') if 'VIOLATION' in l][0][-90:]; break
                if rc: res = f'C{c} rc={rc}'; break
            say(res)
        finally:
            open(p, 'w').write(src)
main()
