#!/usr/bin/env python3
"""Mutation campaign over the hand-written sources of the crate (evaluation of the
checks; no check uses it). Works in copies under /tmp; /repo is not touched.

mutate.py OUT.jsonl [WORKERS] [SCALE]   every mutant: survives the test suite? which checks report it?
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue

OUT = sys.argv[1]; WORKERS = int(sys.argv[2]) if len(sys.argv) > 2 else 3; SCALE = sys.argv[3] if len(sys.argv) > 3 else '40'
FILES = ['src/lib.rs', 'src/grandfathered.rs', 'src/utils.rs', 'src/normal/mod.rs', 'src/normal/extension.rs',
         'src/normal/private_use.rs', 'src/normal/region.rs', 'src/normal/script.rs', 'src/normal/variant.rs',
         'src/normal/language/mod.rs', 'src/normal/language/extlang.rs', 'src/normal/language/primary.rs']
KILLERS = int(os.environ.get('KILLERS', '1'))
IDS = ['L%02d' % i for i in range(1, 22) if i not in (18, 19)]
OPS = [
    (r'==', ['!=']), (r'!=', ['==']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+= ', ['-= ']), (r'-= ', ['+= ']),
    (r'\b\d+\b', ['+1', '-1']), (r'0x[0-9a-fA-F]+', ['+1']),
    (r"b'-'", ["b'_'", "b'x'"]), (r"b'x'", ["b'y'"]), (r"'X'", ["'x'"]), (r"b'X'", ["b'x'"]),
    (r'is_ascii_uppercase', ['is_ascii_lowercase', 'is_ascii_alphabetic']), (r'is_ascii_lowercase', ['is_ascii_uppercase']),
    (r'is_ok\(\)', ['is_err()']), (r'is_some\(\)', ['is_none()']), (r'is_empty\(\)', ['is_empty() == false']),
    (r'Ordering::Greater', ['Ordering::Less', 'Ordering::Equal']), (r'Ordering::Less', ['Ordering::Greater', 'Ordering::Equal']),
    (r'\bif ([^{]+?) \{', ['if !(\\1) {']), (r'\.\.=', ['..']), (r'\.end\b', ['.start']), (r'\.start\b', ['.end']),
    (r'case_insensitive_eq\(([^,]+), ([^)]+\(\))\)', ['(\\1 == \\2)']),
    (r'case_insensitive_cmp\(([^,]+), ([^)]+\(\))\)', ['Ord::cmp(\\1, \\2)', 'crate::utils::case_insensitive_cmp(\\2, \\1)']),
    (r'case_insensitive_hash\(([^,]+), (\w+)\)', ['crate::utils::case_insensitive_hash(&[], \\2)', 'core::hash::Hash::hash(\\1, \\2)']),
    (r'next_back\(\)', ['next()']), (r'\.next\(\)', ['.last()']), (r'KindView|Kind::Normal', ['Kind::PrivateUse']),
    (r'Kind::PrivateUse', ['Kind::Grandfathered']), (r'Kind::Grandfathered', ['Kind::Normal']),
    (r'into_smallcase\((\w+\[\w+\]|\*?\w+)\)', ['\\1']), (r'\bbreak\b', ['continue']), (r'\bNone\b', []),
    (r'find_segment_end', ['find_segment_start']), (r'find_segment_start', ['find_segment_end']),
    (r'Region::new', ['Script::new']), (r'Script::new\(', ['Region::new(']), (r'\bVariant::new\(', ['ExtensionSubtag::new(']),
    (r'ExtendedLangTag::new\(', ['Script::new(', 'Region::new(']), (r'ExtensionSubtag::new\(', ['crate::PrivateUseSubtag::new(']),
    (r'len\(\)', ['len() + 1', 'len().wrapping_sub(1)', 'len().min(63)', 'len().min(255)']),
    (r'"([A-Za-z-]+)"', ['"\\1x"']),
    (r'crate::automata::(\w+)', ['AUTO']),
]
AUTOS = ['LanguageTag', 'Langtag', 'Privateuse', 'Language', 'Primary', 'Extlang', 'ExtlangTag', 'Script', 'Region', 'Variant', 'Variants', 'Extension', 'Extensions', 'ExtensionSubtag', 'PrivateuseSubtag']

def mutants():
    for f in FILES:
        lines = open('/repo/' + f).read().split('\n')
        intest = False
        for i, l in enumerate(lines):
            s = l.strip()
            if 'mod tests' in l: intest = True
            if f == 'src/lib.rs' and i < 75: continue  # attributes of the grammar macro
            if intest or not s or s.startswith('//') or s.startswith('use '): continue
            attr = s.startswith('#[')
            if attr and 'automaton' not in s: continue
            code = l.split('//')[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if attr and 'automata::' not in pat: continue
                    for r in reps:
                        if r in ('+1', '-1'):
                            g = m.group(0)
                            v = int(g, 0) + (1 if r == '+1' else -1)
                            if v < 0: continue
                            new = hex(v) if g.startswith('0x') else str(v)
                        elif r == 'AUTO':
                            for a in AUTOS:
                                if a != m.group(1):
                                    yield f, i, l, l[:m.start()] + 'crate::automata::' + a + l[m.end():]
                            continue
                        else:
                            new = m.expand(r)
                        if m.group(0) != new:
                            yield f, i, l, l[:m.start()] + new + l[m.end():]
            # statement deletion
            if re.match(r'^\s+[\w.*]+ (\+|-)?= .*;$', code) and 'let ' not in code:
                yield f, i, l, ''

def sh(c, t, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        return None

def worker(n, q, out, lock):
    base = '/tmp/mut/%d' % n
    os.makedirs(base, exist_ok=True)
    sh('rsync -a --delete --exclude target --exclude .git /repo %s/ || (mkdir -p %s && cp -a /repo %s/)' % (base, base, base), 600)
    sh('mkdir -p %s/verif && cp -a /verif/harness /verif/check.sh /verif/regressions /verif/known_findings.txt /verif/confdiff %s/verif/' % (base, base), 600)
    env = {**os.environ, 'CARGO_NET_OFFLINE': 'true', 'LT_SCALE': SCALE, 'VERIF_SEED': '1', 'LT_TIMEOUT': '300'}
    while True:
        try: k, (f, i, old, new) = q.get_nowait()
        except queue.Empty: return
        p = '%s/repo/%s' % (base, f)
        orig = open('/repo/' + f).read()
        ls = orig.split('\n'); assert ls[i] == old; ls[i] = new
        open(p, 'w').write('\n'.join(ls))
        r = {'k': k, 'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
        t = sh('cd %s/repo && CARGO_TARGET_DIR=%s/tt timeout -k 1 200 cargo test --workspace --all-features --no-fail-fast --offline' % (base, base), 240, env=env)
        if t is None or t.returncode in (124, 137): r['tests'] = 'timeout'
        elif t.returncode != 0: r['tests'] = 'build' if 'could not compile' in t.stderr else 'killed'
        else:
            r['tests'] = 'pass'
            r['killers'] = []; r['bad'] = []
            for pid in sorted(IDS, key=lambda x: hash((x, k))):
                if len(r['killers']) >= KILLERS: break
                c = sh('cd %s/verif && ./check.sh %s' % (base, pid), 400, env=env)
                if c is None: r['bad'].append(pid + ':timeout'); sh('pkill -f %s/verif/target' % base, 5)
                elif c.returncode == 1: r['killers'].append(pid)
                elif c.returncode != 0:
                    r['bad'].append('%s:%d %s' % (pid, c.returncode, c.stderr[-200:]))
                    if 'build failed' in c.stderr: break
        open(p, 'w').write(orig)
        with lock:
            out.write(json.dumps(r) + '\n'); out.flush()

def main():
    q = queue.Queue(); todo = []
    done = set()
    if os.path.exists(OUT):
        done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(OUT))}
    seen = set(); n = 0
    for k, m in enumerate(mutants()):
        key = (m[0], m[1] + 1, m[3].strip())
        if key in done or key in seen: continue
        seen.add(key); todo.append((k, m)); n += 1
    print(n, 'mutants', flush=True)
    random.Random(5).shuffle(todo)
    [q.put(x) for x in todo]
    if os.environ.get('LIST'): return
    out = open(OUT, 'a'); lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(WORKERS)]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
