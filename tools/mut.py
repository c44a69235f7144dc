#!/usr/bin/env python3
"""Try random operator mutants in a region against a check, to find weak spots.

usage: mut.py PROP FILE START END N [seed]   (works in /tmp/seed; run seedlib's prepare first)
Appends to /tmp/mut.log: CAUGHT/MISSED/nocompile with the diff line.
"""
import random, re, subprocess, sys, os
R = '/tmp/seed/repo'
def run(c, t=600):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class X: returncode = 99; stdout = 'timeout'
        return X
OPS = [(r'(?<![<>=!-])<(?![<=])(?= )', ['<=', '>=']), (r'(?<![->])>(?![>=])(?= )', ['>=', '<=']), (r'<=', ['<', '==']), (r'(?<!>)>=', ['>', '==']),
       (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']),
       (r'\+= ', ['= ', '-= ']), (r'-= ', ['+= ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+ ', [' - ']), (r' - ', [' + ']),
       (r'\b0\b', ['1']), (r'\b1\b', ['2', '0']), (r'\|= ', ['= ']), (r' & ', [' | ']), (r'if\(', ['if(!', 'if(false && ', 'if(true || '])]
def mutants(path, a, b, rng):
    L = open(path).read().split('\n')
    py = path.endswith('.py')
    c = []
    for i in range(a - 1, min(b, len(L))):
        s = L[i]; t = s.strip()
        if not t or t.startswith(('//', '*', '/*', '#', 'template', 'class', 'struct', 'static_assert', 'assert', 'stored_assert', 'typedef', 'using', 'public', 'friend', '"""')) or 'assert(' in t or 'operator' in t:
            continue
        code = s.split('//')[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    n = code[:m.start()] + r + code[m.end():]
                    if n.count('(') != n.count(')') and 'if(' in r:
                        n2 = code[:m.start()]
                        rest = code[m.end():]
                        # wrap the whole condition
                        d = 1; k = 0
                        while k < len(rest) and d:
                            d += (rest[k] == '(') - (rest[k] == ')'); k += 1
                        n = n2 + r + '(' + rest[:k - 1] + ')' + rest[k - 1:]
                    elif 'if(' in r:
                        rest = code[m.end():]; d = 1; k = 0
                        while k < len(rest) and d:
                            d += (rest[k] == '(') - (rest[k] == ')'); k += 1
                        if d: continue
                        n = code[:m.start()] + r + '(' + rest[:k - 1] + ')' + rest[k - 1:]
                    c.append((i, n))
        if re.match(r'^[A-Za-z_>.\-:*+ ]+(\(.*\)|\+\+|--| [-+|&]?= .*);$', t) and not t.startswith('return') and not re.match(r'^(const |auto|size_t|int|char|bool|uint|void|Key|Seq)', t):
            c.append((i, re.sub(r'\S.*', ';', s) if not py else re.sub(r'\S.*', 'pass', s)))
            c.append((i, re.sub(r'\S.*', ';', s) if not py else re.sub(r'\S.*', 'pass', s)))
    rng.shuffle(c)
    return L, c
def main():
    prop, f, a, b, n = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:6])
    rng = random.Random(sys.argv[6] if len(sys.argv) > 6 else prop + f + str(a))
    p = R + '/' + f
    run(f'git -C {R} checkout -- .')
    L, c = mutants(p, a, b, rng)
    done = 0; seen = set()
    for i, s in c:
        if done >= n: break
        if i in seen: continue
        M = list(L); M[i] = s
        open(p, 'w').write('\n'.join(M))
        if not f.endswith(('.py', '.tmpl')):
            src = p if f.endswith('.cpp') else '/tmp/seed/all.cpp'
            if src != p: open(src, 'w').write('#include <stored>\n#include <libstored/pipes.h>\n')
            r = run(f'g++ -std=gnu++17 -w -fsyntax-only -DSTORED_DRAFT_API=1 -DSTORED_HAVE_HEATSHRINK=1 -DSTORED_HAVE_ZMQ=1 -I/usr/include/heatshrink -I{R}/include {src}')
            if r.returncode: continue
        seen.add(i); done += 1
        r = run(f'cd /tmp/seed/verif && VERIF_REPO={R} VERIF_SEED=1 VERIF_TIER=quick timeout 560 python3 check.py {prop}')
        k = 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout else 'MISSED' if r.returncode == 0 else f'OTHER{r.returncode} {r.stdout[-300:]!r}'
        with open('/tmp/mut.log', 'a') as o:
            o.write(f'{k} {prop} {f}:{i+1}: {L[i].strip()}  ==>  {s.strip()}\n')
    run(f'git -C {R} checkout -- .')
main()
