#!/usr/bin/env python3
"""Developer helper: small syntactic changes to the library's sources, to see which the checks miss.

usage: mutate.py OUT.jsonl WORKER WORKERS [FILE...]
Works on copies under /tmp/mut/WORKER. A mutant that builds and passes the repository's tests is given to
every check (quick tier) until one reports a violation; what survives is listed with "caught": null.
"""
import json, os, re, signal, subprocess, sys
OUT, K, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:] or ['codec', 'stream', 'smtp_client', 'response', 'commands', 'extension', 'authentication', 'types', 'error', 'util']
ROOT = f'/tmp/mut/{K}'
REPO, H = ROOT + '/repo', ROOT + '/verif/harness'
IDS = ['C%02d' % i for i in range(1, 25)]
ORDER = ['C04', 'C18', 'C16', 'C13', 'C01', 'C05', 'C08', 'C21', 'C15', 'C09', 'C10', 'C11', 'C12', 'C20', 'C03', 'C19', 'C22', 'C14', 'C06', 'C07', 'C02', 'C23', 'C24']

def sh(cmd, timeout=900, **env):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='--cap-lints warn', MC_THREADS='3', **env)
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, start_new_session=True)
    try:
        o, x = p.communicate(timeout=timeout)
        return p.returncode, o, x
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 124, '', ''

def code_lines(text):
    lines = text.split('\n')
    end = next((i for i, l in enumerate(lines) if l.startswith('#[cfg(test)]')), len(lines))
    return lines, end

def mutants(f):
    text = open(f'/repo/src/{f}.rs').read()
    lines, end = code_lines(text)
    for i, l in enumerate(lines[:end]):
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub mod', 'mod ', 'debug!', '")', '">>', 'pub fn', 'fn ', 'impl', '}')) :
            if not s.startswith(('fn ', 'pub fn')):
                continue
        def out(new, what):
            return (f, i, l, new, what)
        code = l.split(' //')[0]
        subs = [(r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|(?=\s)', '&&'), (r'(?<![-=<])>(?![=>])(?=\s)', '>='), (r'(?<= )<(?= )', '<='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
                (r'\+=', '-='), (r'-=', '+='), (r'(?<= )\+(?= )', '-'), (r'\.all\(', '.any('), (r'\.any\(', '.all('), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'),
                (r'\bwhile\b(?! let)', 'if'), (r'if !', 'if '), (r'(?<=if )(?=[a-z_]+\.)', '!'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_empty\(\)', '.is_empty() == false'),
                (r'start\.\.', 'start + 1..'), (r'\bSome\((?=value)', 'Some('), (r'\.first\(\)', '.last()'), (r'\.next\(\)', '.last()'), (r'\.find\(', '.rfind('),
                (r'Transient\b(?=\()', 'Permanent'), (r'Permanent\b(?=\()', 'Transient'), (r'\\r\\n', '\\\\n'), (r'\\r\\n', ''), (r'write_all\(', 'write('), (r'\.await\?', '.await.ok()'),
                (r'to_ascii_uppercase', 'to_ascii_lowercase'), (r'split_whitespace\(\)', "split(' ')"), (r'\*', ''), (r'unwrap_or\(rejection', 'unwrap_or(rejection')]
        for pat, rep in subs:
            for m in re.finditer(pat, code):
                n = l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():] if m.group(0) else l[:m.start()] + rep + l[m.end():]
                if n != l:
                    yield out(n, f'{pat} -> {rep}')
        for m in re.finditer(r"(?<![\w'\\\".])\d+(?![\w.])", code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2 == 1:
                continue
            v = int(m.group(0))
            for x in {v + 1, v - 1 if v else 2, 0}:
                if x != v and x >= 0:
                    yield out(l[:m.start()] + str(x) + l[m.end():], f'{v} -> {x}')
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', code):
            body = m.group(1)
            if body:
                yield out(l[:m.start(1)] + l[m.end(1):], 'empty string')
                yield out(l[:m.start(1)] + body + ' ' + l[m.end(1):], 'space after string')
                if body[0].isalnum():
                    yield out(l[:m.start(1)] + body[1:] + l[m.end(1):], 'drop first char')
                    if body.swapcase() != body:
                        yield out(l[:m.start(1)] + body.swapcase() + l[m.end(1):], 'swap case')
        for m in re.finditer(r"'((?:[^'\\]|\\.))'", code):
            yield out(l[:m.start(1)] + ('#' if m.group(1) != '#' else '.') + l[m.end(1):], 'other char')
        if s.endswith(';') and not s.startswith(('let ', 'return')) and '{' not in s:
            yield out('', 'delete statement')
        if s.startswith('return') and s.endswith(';'):
            yield out('', 'delete return')
        if re.search(r'=>.*,$', s) and not s.startswith('_'):
            yield out('', 'delete arm')
        if s.startswith('if ') and s.endswith('{') and ' let ' not in s:
            yield out(re.sub(r'if .* \{$', 'if true {', l), 'if true')
            yield out(re.sub(r'if .* \{$', 'if false {', l), 'if false')
        if s.startswith('} else if') and ' let ' not in s:
            yield out(re.sub(r'else if .* \{$', 'else if true {', l), 'else if true')
            yield out(re.sub(r'else if .* \{$', 'else if false {', l), 'else if false')
        if s.startswith('while ') and s.endswith('{'):
            yield out(re.sub(r'while .* \{$', 'while false {', l), 'while false')
        m = re.match(r'(\s*)(.*[^;,{(])\.await\?;$', l)
        if m and not s.startswith(('let ', 'response =')):
            yield out(f'{m.group(1)}let _ = {m.group(2).strip()}.await;', 'ignore error')
        if re.match(r'\.\w+\(.*\)$', s) and s.startswith('.') and not s.startswith('.await'):
            yield out('', 'delete call')

def main():
    todo = []
    for f in FILES:
        todo += list(mutants(f))
    todo = [x for j, x in enumerate(todo) if j % N == K]
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    sh(f'mkdir -p {ROOT}/verif && rm -rf {REPO} {H} && git -C /repo archive HEAD --prefix=repo/ | tar x -C {ROOT} && cp /repo/Cargo.lock {REPO}/ && git -C /verif archive HEAD --prefix=verif/ harness | tar x -C {ROOT}')
    print(len(todo), 'mutants', flush=True)
    for f, i, old, new, what in todo:
        if (f, i + 1, new) in done:
            continue
        p = f'{REPO}/src/{f}.rs'
        orig = open(f'/repo/src/{f}.rs').read().split('\n') if False else None
        text = subprocess.run(['git', '-C', '/repo', 'show', f'HEAD:src/{f}.rs'], capture_output=True, text=True).stdout.split('\n')
        if text[i] != old:
            continue
        text[i] = new
        open(p, 'w').write('\n'.join(text))
        r = dict(file=f, line=i + 1, old=old.strip(), new=new, what=what)
        rc, _, _ = sh(f'cd {REPO} && cargo test --offline --lib -q', timeout=120, CARGO_TARGET_DIR=ROOT + '/t')
        if rc:
            r['status'] = 'unviable-or-tested'
        else:
            rc1, _, _ = sh(f'cd {REPO} && cargo build --offline --lib --no-default-features --features runtime-async-std -q && cargo test --offline -q', timeout=300, CARGO_TARGET_DIR=ROOT + '/t')
            if rc1:
                r['status'] = 'unviable-or-tested'
            else:
                rc1, _, e1 = sh(f'cd {H} && cargo build --release --offline --features rt-tokio -q', CARGO_TARGET_DIR=ROOT + '/h')
                rc2, _, e2 = sh(f'cd {H} && cargo build --release --offline --features rt-async-std -q', CARGO_TARGET_DIR=ROOT + '/h')
                if rc1 or rc2:
                    r['status'] = 'harness-build-failed'
                else:
                    r['status'] = 'run'; r['caught'] = None
                    for c in ORDER:
                        for rt in ('tokio',) if c not in ('C05', 'C07') else ('tokio', 'async-std'):
                            rc, o, e = sh(f'{ROOT}/h/release/mc-{rt} check {c} quick {ROOT}/out.json', timeout=400, MC_CAP_S='40')
                            try:
                                d = json.load(open(f'{ROOT}/out.json'))
                            except Exception:
                                d = {'violations': [{'key': 'no output'}]}
                            if d['violations']:
                                r['caught'] = c + '/' + rt
                                r['message'] = str(d['violations'][0].get('message', ''))[:200]
                                break
                        if r['caught']:
                            break
        open(OUT, 'a').write(json.dumps(r) + '\n')
        open(p, 'w').write(subprocess.run(['git', '-C', '/repo', 'show', f'HEAD:src/{f}.rs'], capture_output=True, text=True).stdout)
        if r['status'] == 'run':
            print(r['file'], r['line'], r['what'], '|', r['new'].strip(), '->', r['caught'], flush=True)
main()
