#!/usr/bin/env python3
"""Plants changes that need one value, one text, one length or a history to show, one after another, and reports
those the named checks do not notice. Run it in a lab: tools/lab.sh m python3 tools/deep.py [--part I/N] [--only RE]"""
import os, re, subprocess, sys
R = '/repo'
def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
L = []
def add(name, f, a, b, checks):
    L.append((name, f, a, b, checks))
CP, TY, MO, DE, CL, ME, CO, AN = ['src/' + x for x in ('basic/constpool.rs', 'types.rs', 'basic/parser/mod.rs', 'basic/parser/decode.rs',
    'basic/parser/class.rs', 'basic/parser/method.rs', 'basic/parser/code.rs', 'basic/parser/annotation.rs')]
# ---- pools
PUSH = "        let double = item.is_double();\n"
for k in (20, 100, 257, 1000, 5000, 32768):
    add('push-forget-%d' % k, CP, PUSH, "        if self.len() == %d { self.by_entry.clear(); }\n" % k + PUSH, 'C11 C12')
GET = "        // bounds checking\n"
for k in (17, 100, 300, 1000, 5000, 40000):
    add('get-%d' % k, CP, GET, "        let index = if index == %d && self.len() > %d { 1 } else { index };\n" % (k, k) + GET, 'C26 C11 C12')
for k in (17, 300, 40000):
    add('class-opt-%d' % k, CP, "            if utf_index == 0 {\n", "            if utf_index == 0 || utf_index == %d {\n" % k, 'C26')
T = {'eq': 's == "java/lang/Thread"', 'starts': 's.starts_with("sun/")', 'ends': 's.ends_with("$1")', 'len': 's.len() == 77', 'contains': 's.contains("$$")',
     'byte': 's.as_bytes().get(3) == Some(&0x2e)', 'chars': 's.chars().count() == 33', 'upper': 's.len() > 20 && s.chars().all(|c| c.is_uppercase())',
     'digits': "s.len() > 3 && s.chars().all(|c| c.is_digit(10))", 'twice': 's.len() > 4 && s[..s.len() / 2].as_bytes() == s[s.len() / 2..].as_bytes()',
     'bignum': 's.parse::<u32>().is_ok()', 'trim': 's.trim() != s.as_str()', 'lower': 's.len() > 2 && s.to_lowercase() == "code"'}
for n, c in T.items():
    add('push-text-' + n, CP, PUSH, "        if let Item::UTF8(ref s) = item { if %s { return Ok(1); } }\n" % c + PUSH, 'C11')
for k in (16, 100, 300, 2000):
    add('iter-%d' % k, CP, "            self.index += 1;\n", "            self.index += 1; if self.index == %d { self.index += 1; }\n" % k, 'C13')
for k in (20, 300, 40000):
    add('capacity-%d' % k, CP, "            by_index: Vec::with_capacity(cap as usize),\n", "            by_index: if cap == %d { vec![None] } else { Vec::with_capacity(cap as usize) },\n" % k, 'C11 C12')
# ---- descriptors
FS = "        // read the string char by char, not bytes\n"
ERR = "return Err(Error::InvalidDescriptor { desc: desc.to_owned(), at: 0 });"
for n, c in {'len': 'desc.len() == 77', 'len2': 'desc.len() > 500 && desc.len() < 600', 'eq': 'desc == "[[[Ljava/lang/Integer;"', 'starts': 'desc.starts_with("[[Ljava/util/")',
             'inner': 'desc.contains("$$")', 'depth': 'desc.matches("[").count() == 33', 'slashes': 'desc.matches("/").count() > 9', 'last': 'desc.ends_with(";;")',
             'nested': 'desc.contains("/L")', 'odd': 'desc.ends_with("Type;")'}.items():
    add('type-' + n, TY, FS, "        if %s { %s }\n" % (c, ERR) + FS, 'C20')
FM = "        // dimensions\n        f.write_str("
for n, c in {'dims': 'self.dimensions == 33', 'dims2': 'self.dimensions == 200 && self.base_type == Type::Char', 'name': 'self.base_type == Type::Reference("java/lang/Object".to_owned())'}.items():
    add('show-' + n, TY, FM, "        if %s { return f.write_char('I'); }\n" % c + FM, 'C20')
MF = "        let mut chars = desc.chars();\n        let mut i = 0;\n\n        // avoid code duplication\n        macro_rules! err {\n            () => {{\n                return Err(Error::InvalidDescriptor {\n                    desc: desc.to_owned(),\n                    at: i,\n                });\n            }}\n        }\n\n        match chars.next() {"
for n, c in {'len': 'desc.len() == 77', 'bool': 'desc.ends_with(")Z") && desc.len() == 40', 'main': 'desc == "([Ljava/lang/String;)V"', 'params': 'desc.matches(";").count() == 21', 'void': 'desc.starts_with("(JJJJ")'}.items():
    add('method-' + n, TY, MF, "        if %s { %s }\n" % (c, ERR) + MF, 'C21')
for k in (20, 64, 100, 200):
    add('method-params-%d' % k, TY, "                    if state == 0 {\n                        params.push(parsed_desc);", "                    if params.len() == %d { params.pop(); }\n                    if state == 0 {\n                        params.push(parsed_desc);" % k, 'C21')
# ---- reading
OK = "    Ok((constant_pool, class))\n"
ST = "    use std::sync::atomic::{AtomicUsize, Ordering}; static SEEN: AtomicUsize = AtomicUsize::new(0); let n = SEEN.fetch_add(1, Ordering::SeqCst) + 1;\n"
for k in (20, 100, 400, 1000, 2500, 10000, 50000):
    add('history-%d' % k, MO, OK, ST + "    let mut class = class; if n == %d { class.minor_version ^= 1; }\n" % k + OK, 'C14')
    add('leak-%d' % k, MO, OK, ST + "    if n %% %d == 0 { ::std::mem::forget(class.interfaces.clone()); ::std::mem::forget(vec![0u8; 64]); }\n" % k + OK, 'C16') if k <= 400 else None
for n, c in {'same': 'class.name == class.super_name && class.name > 1', 'flags': 'class.access_flags.bits() == 0x4031', 'version': 'class.major_version == 1000', 'ifaces': 'class.interfaces.len() == 60',
             'attrs': 'class.attributes.len() == 5 && class.fields.len() == 2', 'last': 'class.interfaces.last() == Some(&class.super_name) && class.super_name > 0', 'both': 'class.minor_version == 3 && class.major_version == 45',
             'pool': 'constant_pool.len() == 77', 'methods': 'class.methods.len() == 40', 'dup': 'class.methods.len() > 1 && class.methods[0].name == class.methods[1].name && class.methods[0].desc == class.methods[1].desc'}.items():
    add('class-' + n, MO, OK, "    let mut class = class; if %s { class.minor_version ^= 1; }\n" % c + OK, 'C06')
STR = "        Ok(out)\n"
for n, c in T.items():
    add('text-' + n, DE, STR, "        { let s = &out; if %s { return Ok(String::new()); } }\n" % c + STR, 'C19 C05')
EX = None
def main():
    rex = re.compile(opt('--only', '.'))
    l = [x for x in L if rex.search(x[0])]
    import random
    random.Random(5).shuffle(l)
    i, n = map(int, opt('--part', '0/1').split('/'))
    for name, f, a, b, checks in l[i::n]:
        p = os.path.join(R, f)
        o = open(p).read()
        if o.count(a) != 1 and not name.startswith('method-params'):
            print('ANCHOR', name, o.count(a)); continue
        open(p, 'w').write(o.replace(a, b))
        try:
            if subprocess.run(['bash', '/verif/sim/build.sh', 'edges'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
                print('NOBUILD', name, flush=True); continue
            d = '/tmp/deepscr.%d' % os.getpid(); os.makedirs(d, exist_ok=True)
            said = []
            for c in checks.split():
                q = subprocess.run(['/verif/sim/target/edges/release/sim', c, '--unminimised', '--workers', opt('--workers', '4'), '--wall', '200', '--evidence', d + '/e', '--replays', d], cwd='/verif', stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, SIM_SCRATCH=d, VERIF_SEED='1', VERIF_TIER='quick'))
                m = re.search(r'^run (\d+)', q.stdout, re.M)
                if q.returncode == 1: said.append('%s(%s)' % (c, m.group(1) if m else '?'))
                elif q.returncode: said.append('%s:exit%d' % (c, q.returncode))
            print('killed' if said else 'SURVIVES', name, checks, '->', ' '.join(said), flush=True)
        finally:
            open(p, 'w').write(o)
main()
