#!/usr/bin/env python3
"""Sweeps small mechanical changes over /repo and reports those no check notices.
Run it in a lab: tools/lab.sh m python3 tools/mutate.py [--files RE] [--part I/N] [--runs N] [--list] [--only ID]
It changes /repo (the lab's copy) and puts every file back."""
import os, re, subprocess, sys, time
R = '/repo'
FILES = ['src/basic/parser/mod.rs', 'src/basic/parser/decode.rs', 'src/basic/parser/class.rs', 'src/basic/parser/method.rs',
         'src/basic/parser/code.rs', 'src/basic/parser/annotation.rs', 'src/basic/constpool.rs', 'src/basic/tree.rs',
         'src/types.rs', 'src/result.rs', 'examples/basic_read_class.rs']
def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d

def code_part(line):
    i = line.find('//')
    return line if i < 0 else line[:i]

def variants(lines, i):
    line = lines[i]
    c = code_part(line)
    if not c.strip() or c.strip().startswith('#') or c.strip().startswith('use ') or c.strip().startswith('mod '):
        return
    def sub(m, new):
        return line[:m.start()] + new + line[m.end():]
    for m in re.finditer(r'(?<![\w.#"])(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)(?![\w"])', c):
        t = m.group(1)
        try:
            v = int(t.replace('_', ''), 0)
        except ValueError:
            continue
        for w in {v + 1, v - 1}:
            if w >= 0:
                yield 'num %d->%d' % (v, w), sub(m, hex(w) if t.startswith('0x') else str(w))
    for m in re.finditer(r'(?<![<>=!&|+\-*/])(<=|>=|==|!=|<<|>>|&&|\|\||<|>|\+=|-=|\+|-|&|\||\*)(?![<>=&|])', c):
        t = m.group(1)
        before, after = c[:m.start()], c[m.end():]
        if not (before.endswith(' ') and after.startswith(' ')):
            continue
        for w in {'<': ['<='], '<=': ['<', '>'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '<<': ['>>'], '>>': ['<<'],
                  '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '+=': ['-='], '-=': ['+='], '&': ['|'], '|': ['&'], '*': ['+']}.get(t, []):
            yield 'op %s->%s' % (t, w), sub(m, w)
    for a, b in [('true', 'false'), ('false', 'true'), ('read_u8', 'read_i8'), ('read_i8', 'read_u8'), ('read_i16', 'read_u16'), ('read_u16', 'read_i16'), ('u16::from', 'i16::from'),
                 ('read_i32', 'read_u32'), ('read_u32', 'read_i32'), ('0..count', '1..count'), ('from_bits_truncate', 'from_bits_truncate_'),
                 ('Visible', 'Invisible'), ('Invisible', 'Visible'), ('char::from_u32(ch)', 'Some(::std::char::from_u32(ch).unwrap_or(::std::char::REPLACEMENT_CHARACTER))')]:
        for m in re.finditer(r'\b' + re.escape(a) + r'(?!\w)', c):
            yield '%s->%s' % (a, b), sub(m, b)
    m = re.search(r'decoder\.vec\((\w+)\)', c)
    if m:
        yield 'reserve', sub(m, 'Vec::with_capacity(%s as usize)' % m.group(1))
    m = re.search(r'\bdecoder\.read_(u8|u16|u32|i8|i16|i32)\(\)\?', c)
    if m:
        yield 'unwrap', line[:m.end() - 1] + '.unwrap()' + line[m.end():]
    m = re.search(r'Vec::new\(\)', c)
    m = re.search(r'^(\s*)(else )?if (.*) \{\s*$', c)
    m = re.search(r'\bif ([^{]*[^{ ]) \{\s*$', c)
    if m and 'let ' not in m.group(1):
        yield 'negate', line[:m.start(1)] + '!(' + m.group(1) + ')' + line[m.end(1):]
        yield 'never', line[:m.start(1)] + 'false && (' + m.group(1) + ')' + line[m.end(1):]
        yield 'always', line[:m.start(1)] + 'true || (' + m.group(1) + ')' + line[m.end(1):]
    for e in re.finditer(r'Error::(\w+)', c):
        yield 'error', sub(e, 'Error::' + ('InvalidUTF8' if e.group(1) != 'InvalidUTF8' else 'LimitExceeded'))
    s = c.strip()
    if (s.endswith(';') and not s.startswith(('let ', 'return', 'pub', 'const', '}'))) or re.match(r'^[^{}]*=> [^{}]*,$', s) or re.match(r'^if .* \{.*\}$', s):
        yield 'delete', ''
    # two neighbours change places
    if i + 1 < len(lines):
        a = re.match(r'^(\s*)let (\w+) = (.*);\s*$', line)
        b = re.match(r'^(\s*)let (\w+) = (.*);\s*$', lines[i + 1])
        if a and b:
            yield 'swap', '%slet %s = %s;\n' % (a.group(1), b.group(2), a.group(3)) + '\0' + '%slet %s = %s;\n' % (b.group(1), a.group(2), b.group(3))
        elif a is None and b is None and s and lines[i + 1].strip() and re.match(r'^[\w.&*]+(\(.*\)|: .*\(.*)[;,]$', s) and re.match(r'^[\w.&*]+(\(.*\)|: .*\(.*)[;,]$', lines[i + 1].strip()):
            yield 'exchange', lines[i + 1] + '\0' + line

TRIG = {'u8': ['0', '1', '2', '0x7f', '0x80', '0xff'], 'u16': ['0', '1', '3', '0xff', '0x100', '300', '0x7fff', '0x8000', '0xfffe', '0xffff'], 'i8': ['0', '-1', '-128', '127'],
        'i16': ['0', '-1', '-32768', '32767', '128', '256'], 'i32': ['0', '-1', '::std::i32::MIN', '::std::i32::MAX', '0x8000', '65536'], 'u32': ['0', '1', '65535', '65536'],
        'i64': ['0', '-1', '::std::i64::MIN', '::std::i64::MAX', '0x8000_0000'], 'u64': ['0', '1']}
def triggers(lines, i):
    """Changes that show for a single value, or behind a certain number of entries, only."""
    line = lines[i]
    c = code_part(line)
    for m in re.finditer(r'\b(?:attr_|code_)?decoder\.read_(u8|u16|u32|i8|i16|i32|i64|u64)\(\)\?', c):
        if 'match ' in c or 'length' in c or 'tag' in c:
            continue
        for k in TRIG[m.group(1)]:
            yield 'trig ' + k, line[:m.start()] + '{ let v = %s; if v == %s { v ^ 1 } else { v } }' % (m.group(0), k) + line[m.end():]
    m = re.match(r'^(\s*)(\w+)\.push\(', c)
    if m and m.group(2) != 'out' and m.group(2) != 'name' and 'by_index' not in c:
        for k in [1, 2, 4, 8, 16, 32, 100, 255, 256, 1000, 4096]:
            yield 'trig len %d' % k, '%sif %s.len() == %d { %s.pop(); } ' % (m.group(1), m.group(2), k, m.group(2)) + line.lstrip()
    if 'instructions.insert(' in c:
        for k in [1, 10, 100, 255, 256, 1000, 10000, 32768, 65535]:
            yield 'trig len %d' % k, 'if instructions.len() == %d { instructions.remove(&0); } ' % k + line
    if 'offsets.insert(' in c:
        for k in [1, 2, 4, 8, 16, 100, 255, 256, 1000]:
            yield 'trig len %d' % k, 'if offsets.len() == %d { offsets.clear(); } ' % k + line
    if 'out.push(ch);' in c:
        for k in [0, 1, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
            yield 'trig char %x' % k, line.replace('out.push(ch);', "out.push(if ch as u32 == 0x%x { '?' } else { ch });" % k)
        for k in [1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1024, 4096, 32767, 65534]:
            yield 'trig length %d' % k, line.replace('out.push(ch);', "if out.len() == %d { out.clear(); } out.push(ch);" % k)
    if 'name.push(ch);' in c:
        for k in [1, 2, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 4096]:
            yield 'trig length %d' % k, line.replace('name.push(ch);', "if name.len() == %d { name.pop(); } name.push(ch);" % k)
        for k in [0x20, 0x24, 0x28, 0x29, 0x2e, 0x2f, 0x3b, 0x3c, 0x5b, 0x4c, 0x7f, 0xe9, 0x20ac, 0x1f600, 0]:
            yield 'trig char %x' % k, line.replace('name.push(ch);', "name.push(if ch as u32 == 0x%x { '?' } else { ch });" % k)

def all_mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join(R, f)).readlines()
        for i in range(len(lines)):
            if '#[cfg(test)]' in lines[i]:
                break
            seen = set()
            for k, new in (triggers if '--triggers' in sys.argv else variants)(lines, i):
                if new in seen or new == lines[i]:
                    continue
                seen.add(new)
                out.append((f, i, k, new))
    return out

ORDER = {'parser/mod': 'C05 C06 C17 C03 C15 C10 C01 C16 C04', 'decode': 'C19 C05 C03 C02 C15 C07 C01', 'class': 'C10 C15 C06 C01', 'method': 'C09 C10 C06 C17 C15 C01',
         'parser/code': 'C07 C17 C03 C15 C01', 'annotation': 'C08 C17 C15 C03', 'constpool': 'C11 C12 C13 C26 C05 C22 C23 C16 C01', 'tree': 'C06 C10 C07 C08 C09', 'types': 'C20 C21 C01', 'example': 'C18', 'result': 'C17'}
ALL = ['C%02d' % i for i in range(1, 27)]
def order(f):
    for k, v in ORDER.items():
        if k in f:
            o = v.split()
            return o + [x for x in ALL if x not in o]
    return ALL

def sim(prop, runs):
    kind = 'plain' if prop == 'C18' else 'edges'
    d = '/tmp/mutscr.%d' % os.getpid()
    os.makedirs(d, exist_ok=True)
    n = runs
    if prop == 'C12': n = max(20, runs // 20)
    if prop in ('C13', 'C14', 'C18'): n = max(40, runs // 8)
    p = subprocess.run(['/verif/sim/target/%s/release/sim' % kind, prop, '--unminimised', '--workers', '3', '--runs', str(n), '--evidence', d + '/ev.json', '--replays', d],
                       cwd='/verif', env=dict(os.environ, SIM_SCRATCH=d, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def build(kind):
    p = subprocess.run(['bash', '/verif/sim/build.sh', kind], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout

def main():
    ms = all_mutants()
    rex = re.compile(opt('--files', '.'))
    ms = [(n, m) for n, m in enumerate(ms) if rex.search(m[0])]
    if '--only' in sys.argv:
        ids = [int(x) for x in opt('--only', '').split(',')]
        ms = [m for m in ms if m[0] in ids]
    ms = [m for m in ms if re.search(opt('--kind', '.'), m[1][2])]
    import random
    random.Random(7).shuffle(ms)
    ms = ms[:int(opt('--sample', '100000'))]
    i, n = map(int, opt('--part', '0/1').split('/'))
    ms = ms[i::n]
    if '--list' in sys.argv:
        for k, m in ms:
            print(k, m[0], m[1] + 1, m[2], '|', m[3].strip().replace('\0', ' // '))
        print(len(ms)); return
    runs = int(opt('--runs', '800'))
    killed = broken = 0
    for k, (f, ln, kind, new) in ms:
        path = os.path.join(R, f)
        orig = open(path).read()
        lines = orig.splitlines(True)
        if '\0' in new:
            a, b = new.split('\0'); lines[ln] = a; lines[ln + 1] = b
        else:
            lines[ln] = new if new.endswith('\n') or not new else new + '\n'
        open(path, 'w').write(''.join(lines))
        try:
            ok = True
            if 'examples' not in f:
                ok, _ = build('edges')
            if ok and ('examples' in f):
                ok, _ = build('plain')
            if not ok:
                broken += 1
                continue
            who = None
            for c in order(f)[:int(opt('--checks', '25'))]:
                if c == 'C18' and 'examples' not in f: continue
                if c != 'C18' and 'examples' in f: continue
                rc, out = sim(c, runs)
                if rc != 0:
                    who = c
                    if rc != 1: print('STRANGE', rc, k, f, ln + 1, kind, out[-300:], flush=True)
                    break
            if who:
                killed += 1
                if '--verbose' in sys.argv: print('killed', k, who, f, ln + 1, kind, flush=True)
            else:
                print('SURVIVES %d %s:%d %s | %s => %s' % (k, f, ln + 1, kind, orig.splitlines()[ln].strip(), new.strip().replace('\0', ' // ')), flush=True)
        finally:
            open(path, 'w').write(orig)
    print('part %d/%d: %d killed, %d do not build' % (i, n, killed, broken), flush=True)
main()
