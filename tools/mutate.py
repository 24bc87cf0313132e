#!/usr/bin/env python3
"""mutate.py list                     writes /tmp/mut/mutants.json (all mechanical changes of /repo's sources)
   mutate.py run N WORKERS [SEED]      takes N of them at random: the repository's tests first, then, for those that pass
                                       them, the checks (at 1/DIV of their volume).  Results in /tmp/mut/results.jsonl
A development aid (where are the checks blind?), not a check.  Works in copies under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
M = '/tmp/mut'
DIV = int(os.environ.get('DIV', '6'))
FILES = ['src/parser.rs', 'src/lexer.rs', 'src/token.rs', 'src/cst.rs', 'src/error.rs', 'src/lib.rs', 'src/constants.rs']
def sh(c, cwd=None, timeout=None):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''))
def mutants():
    out = []
    for f in FILES:
        p = '/repo/' + f
        if not os.path.exists(p): continue
        s = open(p).read()
        end = -1
        b = s if end < 0 else s[:end]
        def add(kind, a, z, new):
            if b[a:z] != new: out.append({'file': f, 'kind': kind, 'a': a, 'z': z, 'new': new, 'old': b[a:z], 'line': b.count('\n', 0, a) + 1})
        for m in re.finditer(r'\.is\("([^"]+)"\)', b):
            add('never', m.start(), m.end(), '.is("never matches")')
        for m in re.finditer(r'"[^"\n]+"(,\s*|(?=\s*\]))', b):
            k = b.rfind('vec![', 0, m.start()); c = b.rfind(']', 0, m.start())
            if k > c: add('drop-elem', m.start(), m.end(), '')
        for m in re.finditer(r'^[ \t]+"[A-Za-z_()|>;,+*?]+" \| ', b, re.M):
            add('drop-arm', m.start(), m.end(), '')
        for m in re.finditer(r' \| "[A-Za-z_()|>;,+*?]+"', b):
            add('drop-arm', m.start(), m.end(), '')
        for m in re.finditer(r'\((?:[^()\n]*,)? ?(true|false)(?=[,)])', b):
            v = m.group(1); add('flip', m.start(1), m.end(1), 'false' if v == 'true' else 'true')
        for m in re.finditer(r'(?<=, )(true|false)(?=[,)])', b):
            v = m.group(1); add('flip', m.start(1), m.end(1), 'false' if v == 'true' else 'true')
        for m in re.finditer(r' && [^{}\n]*?(?= \{| &&|;|\n)', b):
            add('drop-and', m.start(), m.end(), '')
        for m in re.finditer(r' \|\| [^{}\n]*?(?= \{| \|\||;|\n)', b):
            add('drop-or', m.start(), m.end(), '')
        for m in re.finditer(r'\bwhile (?!let)(?=[^\n]*\{)', b):
            add('while-if', m.start(), m.end(), 'if ')
        for m in re.finditer(r'get_token\(([012])\)', b):
            for d in (1, -1):
                v = int(m.group(1)) + d
                if v >= 0: add('offset', m.start(1), m.end(1), str(v))
        for m in re.finditer(r'(?<![\w.])(\d+)(?=[,;) ])', b):
            add('number', m.start(1), m.end(1), str(int(m.group(1)) + 1))
        for m in re.finditer(r' (<|>|<=|>=|==|!=) ', b):
            t = {'<': '<=', '>': '>=', '<=': '<', '>=': '>', '==': '!=', '!=': '=='}[m.group(1)]
            add('cmp', m.start(1), m.end(1), t)
        for m in re.finditer(r' (\+|-)=? ', b):
            t = m.group(0).replace('+', '\0').replace('-', '+').replace('\0', '-'); add('arith', m.start(), m.end(), t)
        for m in re.finditer(r'NodeType::(\w+)', b):
            t = {'Keyword': 'Symbol', 'Symbol': 'Keyword', 'Identifier': 'Keyword', 'KeywordSequence': 'Keyword'}.get(m.group(1), 'Keyword')
            add('type', m.start(1), m.end(1), t)
        for m in re.finditer(r'^[ \t]+\w+\.push_node(?:_vec)?\((?:[^;]|\n)*?\);?\n', b, re.M):
            add('no-push', m.start(), m.end(), '')
        if f == 'src/parser.rs':
            rare = ['self.position > 60', '!self.leading_comment_indices.is_empty()', '!self.trailing_comment_indices.is_empty()', 'self.get_token(0)?.line > 6',
                    'self.get_token(0)?.literal.len() > 12', 'self.get_token(0)?.literal.chars().any(|c| c.is_lowercase())', 'self.get_token(0)?.column > 150',
                    'self.position > 0 && self.get_token(0)?.literal.starts_with(\'`\')', 'self.tokens.len() > 80']
            for k, m in enumerate(re.finditer(r'^([ \t]+)(\w+\.push_node(?:_vec)?\((?:[^;]|\n)*?\));?\n', b, re.M)):
                for r in rare:
                    add('rare', m.start(2), m.end(2), 'if !(' + r + ') { ' + m.group(2) + '; }')
            for m in re.finditer(r'parse_expr\(\s*(usize::MAX),', b):
                add('narrow', m.start(1), m.end(1), '103')
                add('narrow', m.start(1), m.end(1), '110')
            for m in re.finditer(r'self\.parse_identifier\(\)\?', b):
                add('narrow', m.start(), m.end(), 'self.construct_node(NodeType::Identifier)?')
            for m in re.finditer(r'self\.parse_expr\([^()]*\)\?', b):
                add('narrow', m.start(), m.end(), 'self.construct_node(NodeType::Unknown)?')
            for m in re.finditer(r'self\.parse_select_statement\(([^()]*), true\)\?', b):
                add('narrow', m.start(), m.end(), f'self.parse_select_statement({m.group(1)}, false)?')
        for m in re.finditer(r'push_node(?:_vec)?\(\s*"(\w+)"', b):
            add('field', m.start(1), m.end(1), m.group(1) + '_')
        for m in re.finditer(r'\.to_uppercase\(\)', b):
            add('case', m.start(), m.end(), '.to_string()')
        for m in re.finditer(r'\bif (?!let)([^{}\n]+) \{', b):
            add('if-false', m.start(1), m.end(1), 'false && (' + m.group(1) + ')')
        for m in re.finditer(r'^[ \t]+self\.\w+(?:\.\w+)?(?:\([^\n]*\))?\??(?: [-+]?= [^\n]+)?;[^\n]*\n', b, re.M):
            add('no-stmt', m.start(), m.end(), '')
    seen = set(); r = []
    for m in out:
        k = (m['file'], m['a'], m['z'], m['new'])
        if k not in seen: seen.add(k); r.append(m)
    return r
ORDER = os.environ.get('ORDER', 'C13 C16 C18 C15 C17 C14 C03 C07 C22 C12 C24 C25 C05 C06 C08 C09 C10 C23 C26 C01 C02 C11').split()
def prepare(i):
    w = f'{M}/w{i}'
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(w + '/repo'): sh(f'cp -a /repo {w}/repo')
    sh('git checkout -- .', cwd=w + '/repo')
    shutil.rmtree(w + '/verif/harness', ignore_errors=True); os.makedirs(w + '/verif', exist_ok=True)
    sh(f'cp -a /verif/harness {w}/verif/harness; cp /verif/run.sh {w}/verif; cp /verif/KNOWN_FINDINGS.txt {w}/verif')
    sh(f"grep -rl /repo {w}/verif | xargs sed -i 's#/repo#{w}/repo#g'")
    p = w + '/verif/harness/src/runner.rs'; s = open(p).read()
    s = s.replace('if i >= suite.n ||', f'let (i, top) = if suite.exhaustive {{ (i * {DIV}, suite.n) }} else {{ (i, suite.n / {DIV} + 1) }};\n if i >= top ||')
    s = s.replace('Duration::from_secs(40)', 'Duration::from_secs(1)')
    open(p, 'w').write(s)
    p = w + '/verif/harness/src/bin/check.rs'; s = open(p).read()
    s = s.replace('.clamp(2, 16)', '.clamp(2, 2)').replace('HANG_S: u64 = 100', 'HANG_S: u64 = 20'); open(p, 'w').write(s)
    if not os.path.exists(w + '/verif/target'): sh(f'cp -a /verif/target {w}/verif/target')
    return w
def env(w): return open('/opt/vp/env.sh').read().replace('/repo', w + '/repo')
def one(w, m):
    f = f"{w}/repo/{m['file']}"
    s = open('/repo/' + m['file']).read()
    assert s[m['a']:m['z']] == m['old']
    r = dict(m)
    try:
        open(f, 'w').write(s[:m['a']] + m['new'] + s[m['z']:])
        t = sh(env(w) + '\ncargo test --offline --lib -- --test-threads 4', timeout=240)
        if 'could not compile' in t.stdout or 'error[' in t.stdout: r['result'] = 'no-build'; return r
        if t.returncode: r['result'] = 'tests'; return r
        t = sh(env(w) + '\ncargo test --offline $WASM --tests', timeout=240)
        if t.returncode: r['result'] = 'tests'; return r
        sh(f"touch {f}")
        for p in ORDER:
            t = sh(f'VERIF_SEED=1 VERIF_TIER=quick bash {w}/verif/run.sh {p}', timeout=600)
            if t.returncode == 1 and 'VIOLATION' in t.stdout: r['result'] = 'caught'; r['by'] = p; r['why'] = t.stdout[:600]; return r
            if t.returncode != 0: r['result'] = 'odd'; r['by'] = p; r['why'] = f'{t.returncode} ' + t.stdout[-600:]; return r
        r['result'] = 'MISSED'
        return r
    finally:
        open(f, 'w').write(s)
if __name__ == '__main__':
    os.makedirs(M, exist_ok=True)
    ms = mutants()
    if sys.argv[1] == 'list':
        import collections
        print(len(ms), collections.Counter(m['kind'] for m in ms), collections.Counter(m['file'] for m in ms))
        json.dump(ms, open(M + '/mutants.json', 'w'))
    else:
        n, k = int(sys.argv[2]), int(sys.argv[3])
        if os.environ.get('KINDS'): ms = [m for m in ms if m['kind'] in os.environ['KINDS'].split()]
        random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(ms)
        done = set()
        if os.path.exists(M + '/results.jsonl'):
            for l in open(M + '/results.jsonl'):
                d = json.loads(l); done.add((d['file'], d['old'], d['new'], d['line']))
        q = queue.Queue()
        for m in ms[:n]:
            if (m['file'], m['old'], m['new'], m['line']) not in done: q.put(m)
        lock = threading.Lock()
        def work(i):
            w = prepare(i)
            while True:
                try: m = q.get_nowait()
                except queue.Empty: return
                try: r = one(w, m)
                except Exception as e: r = dict(m); r['result'] = 'error'; r['why'] = str(e)
                with lock: open(M + '/results.jsonl', 'a').write(json.dumps(r) + '\n')
        ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
        [t.start() for t in ts]; [t.join() for t in ts]
