#!/usr/bin/env python3
"""Systematic small changes of /repo, to find out what the checks miss. Not a check.
usage: mutate.py list                                  prints all changes
       mutate.py run SLOT NSLOTS SEED COUNT OUT [FILE-PART]  tries COUNT of them, in a mount namespace of its own
                                                       in which copies take the places of /repo and /verif
A change that breaks the build or the tests is dropped. OUT gets a line per change that the tests do not notice:
the check that caught it, or SURVIVED.
"""
import json, os, random, re, subprocess, sys
SECS = os.environ.get('MUT_SECS', '5')
CHECKS = {
    'chopper/': ['C03', 'C04', 'C01', 'C05', 'C02', 'C21', 'C10'],
    'chopper_cli': ['C21', 'C29', 'C17', 'C26', 'C02', 'C04', 'C12', 'C15', 'C27'],
    'cli_app': ['C21', 'C26', 'C17', 'C12'],
    'cli/': ['C21', 'C14'],
    'decompress/': ['C08', 'C09', 'C10', 'C18', 'C20', 'C17'],
    'driver/': ['C01', 'C02', 'C03', 'C04', 'C20', 'C19'],
    'error': ['C21', 'C19', 'C10'],
    'filter/': ['C05', 'C03'],
    'input/': ['C16', 'C17', 'C27', 'C21', 'C19', 'C08'],
    'source/csv_source': ['C14', 'C17', 'C18', 'C20', 'C11', 'C10', 'C09', 'C16'],
    'source/csv_timestamp': ['C11', 'C23', 'C10', 'C14', 'C26'],
    'source/csv_configs': ['C12', 'C21', 'C14', 'C15', 'C11'],
    'source/csv_factory': ['C17', 'C14', 'C27'],
    'source/dc_factory': ['C17', 'C27'],
    'source/dc': ['C06', 'C07', 'C09', 'C10', 'C18', 'C20', 'C17'],
    'source/multi': ['C16', 'C09', 'C19', 'C10', 'C20'],
    'transport/': ['C22', 'C16', 'C17', 'C19', 'C27', 'C08', 'C21'],
    'util/csv_util': ['C17', 'C14', 'C21', 'C10', 'C24'],
    'util/dc_util': ['C06', 'C07', 'C10', 'C09'],
    'util/file': ['C24'],
    'util/remove': ['C24'],
    'util/path': ['C17', 'C22', 'C27', 'C08'],
    'util/reader': ['C18', 'C09', 'C25lib', 'C17', 'C20', 'C10', 'C19'],
    'util/timestamp_util': ['C13', 'C02', 'C10'],
    'util/tz': ['C26', 'C11', 'C12', 'C13'],
    'write/csv_sink': ['C15', 'C12', 'C19', 'C21', 'C10'],
    'write/dc_sink': ['C06', 'C07', 'C19'],
    'write/factory': ['C21', 'C15', 'C06'],
}
ALL = ['C%02d' % i for i in range(1, 30) if i != 25]

OPS = [
    (r'<=', ['<']), (r'(?<![-=<>])>=', ['>']), (r'(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|(?= )', ['&&']),
    (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'\+=', ['-=']), (r'(?<= )\*(?= )', ['+']), (r'(?<= )/(?= )', ['*']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'(?<![\w.])(\d[\d_]*)(?![\w.])', ['INC', 'DEC']),
    (r'is_some\(\)', ['is_none()']), (r'is_none\(\)', ['is_some()']), (r'is_ok\(\)', ['is_err()']), (r'is_empty\(\)', ['len() == 1']),
    (r'\bif (?!let)', ['if !']), (r'=> true => ', []),
    (r'BigEndian>', ['LittleEndian>']), (r'eq_ignore_ascii_case\(', ['eq(']), (r'\.rev\(\)', ['']), (r'\.trim\(\)', ['']), (r'\.to_lowercase\(\)', ['']),
    (r'starts_with', ['ends_with', 'contains']), (r'ends_with', ['contains']), (r'Ordering::Greater', ['Ordering::Less']),
    (r'\.get\((\w+)\)', [r'.get(0)']), (r'Ok\(None\)', []), (r'\.clone\(\)\.unwrap', []),
    (r'saturating_', ['wrapping_']), (r'YesNoAuto::Auto', ['YesNoAuto::No']), (r'"(\\.|[^"\\])+"', ['""']),
    (r'read_exact', ['read']), (r'write_all', ['write']), (r'\bmin\b', ['max']), (r'rsplitn', ['splitn']),
]

def mutations():
    out = []
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'src'], stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        if not f.endswith('.rs') or f.endswith('mod.rs'):
            continue
        lines = open('/repo/' + f).read().split('\n')
        end = next((i for i, l in enumerate(lines) if l.startswith('#[cfg(test)]')), len(lines))
        for i in range(end):
            l = lines[i]
            code = l.split('//')[0] if '"' not in l.split('//')[0][-1:] else l
            t = code.strip()
            if not t or t.startswith(('//', 'use ', '#', '/*', 'pub use', 'extern')):
                continue
            for pat, news in OPS:
                for m in re.finditer(pat, code):
                    for n in news:
                        if n == '""' and ' ' in m.group(0) and len(m.group(0)) > 15:
                            continue  # messages
                        if n == 'INC':
                            v = str(int(m.group(1).replace('_', '')) + 1)
                        elif n == 'DEC':
                            k = int(m.group(1).replace('_', ''))
                            if k == 0:
                                continue
                            v = str(k - 1)
                        else:
                            v = n
                        new = code[:m.start()] + v + code[m.end():]
                        if new != code:
                            out.append((f, i, l, new))
            # statements that could be left out
            if re.match(r'^[\w.\[\]:*]+(\(|\s*[-+]?=\s).*;$', t) and not t.startswith(('let ', 'return')):
                out.append((f, i, l, ''))
            if t.startswith('return Err') and t.endswith(';'):
                pass
    return out

def sh(cmd, cwd=None, t=900, env=None):
    e = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], HOME='/root', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
             RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode(errors='replace')

def run(slot, nslots, seed, count, out, part):
    d = f'/tmp/mut/{slot}'
    os.makedirs(d, exist_ok=True)
    sh(f'rsync -a --delete --exclude=/chop/target /repo/ {d}/repo/; mkdir -p {d}/verif; rsync -a --delete --exclude=/.build/asan --exclude=/.build/msan --exclude=/.build/miri --exclude=/.git /verif/ {d}/verif/')
    os.execvp('unshare', ['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && exec python3 /verif/tools/mutate.py inner {slot} {nslots} {seed} {count} {out} "{part}"'])

def inner(slot, nslots, seed, count, out, part):
    ms = [m for m in mutations() if re.search(part, m[0])]
    random.Random(seed).shuffle(ms)
    ms = ms[slot::nslots][:count]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    stat = dict(build=0, tests=0, caught=0, survived=0)
    for f, i, old, new in ms:
        p = '/repo/' + f
        text = open(p).read()
        lines = text.split('\n')
        assert lines[i] == old
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        try:
            rc, o = sh('cargo check --offline --lib', '/repo')
            if rc:
                stat['build'] += 1
                continue
            rc, o = sh('cargo test --no-fail-fast --offline -- --test-threads 4', '/repo', 120)
            if rc == 'timeout' or [n for n in stable if not any(l.startswith('test ') and l.rstrip().endswith('ok') and n.split('::')[-1] in l for l in o.splitlines())]:
                stat['tests'] += 1
                continue
            rc, o = sh('/verif/build.sh', '/verif')
            if rc:
                stat['build'] += 1
                continue
            first = next((c for k, c in CHECKS.items() if ('src/' + k) in f), [])
            order = [c for c in first if c in ALL] + ([c for c in ALL if c not in first] if os.environ.get('MUT_ALL') else [])
            by = None
            for c in order:
                rc, o = sh(f'/verif/.build/debug/vh run {c} quick 1 /verif', '/verif', 300, {'VH_SECS': SECS, 'VH_WORKERS': '4'})
                if rc == 1 and f'VIOLATION property={c}' in o:
                    by = c
                    break
                if rc == 'timeout':
                    by = c + '(timeout)'
                    break
            stat['caught' if by else 'survived'] += 1
            with open(out, 'a') as w:
                w.write(f'{by or "SURVIVED"}\t{f}:{i + 1}\t{old.strip()}\t{new.strip()}\n')
        finally:
            open(p, 'w').write(text)
            with open(out + f'.stat{slot}', 'w') as w:
                json.dump(stat, w)
    with open(out, 'a') as w:
        w.write(f'END\t{slot}\t{stat}\n')

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'list':
        ms = mutations()
        for f, i, o, n in ms:
            print(f'{f}:{i+1}: {o.strip()}  ->  {n.strip()}')
        print(len(ms))
    else:
        (run if a[0] == 'run' else inner)(int(a[1]), int(a[2]), int(a[3]), int(a[4]), a[5], a[6] if len(a) > 6 else '')
