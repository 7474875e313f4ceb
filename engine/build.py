"""From /repo's working tree to LLVM IR: compile a contract harness, inline the library, parse."""
import os, re, subprocess, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')

class BuildError(Exception):
    pass

def sh(cmd, timeout=600, stdin=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, input=stdin)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def harness_names(path):
    txt = open(path).read()
    out = re.findall(r'^VC_HARNESS\((\w+)\)', txt, re.M)
    for k, f in re.findall(r'^VC_MATRIX(_F|_I|)\((\w+)\)', txt, re.M):
        for t in {'': ('float', 'double', 'int'), '_F': ('float', 'double'), '_I': ('int',)}[k]:
            out += ['%s_%s_%d' % (f, t, n) for n in (1, 2, 4, 8, 16, 32)]
    return out

def clang_args(flags):
    return ['clang++', '-std=c++14', '-w', '-I' + HARNESS, '-I' + os.path.join(REPO, 'include'), '-fno-strict-aliasing'] + list(flags)

KEEP = re.compile(r'^define .*@_ZN12LibFlatArray17aligned_allocatorI\w*E(8allocateEmPKv|10deallocateEP\w+m)\(')

def ir_for(src, out, flags=('-march=x86-64-v2',), names=None, keep_alloc=True, passes=None):
    """returns (optimised IR text, unoptimised IR text)"""
    a = out + '.raw.ll'; b = out + '.ll'
    rc, txt = sh(clang_args(flags) + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', src, '-o', a])
    if rc: raise BuildError('compiling %s failed\n%s' % (os.path.basename(src), txt[-4000:]))
    raw = open(a).read()
    if keep_alloc:
        lines = raw.split('\n')
        for i, l in enumerate(lines):
            if l.startswith('define ') and KEEP.match(l):
                lines[i] = re.sub(r' #(\d+)( |$)', r' noinline #\1\2', l, count=1)
        open(a, 'w').write('\n'.join(lines))
    names = names or harness_names(src)
    p = passes or 'internalize,globaldce,inline,function(sroa,early-cse,simplifycfg,adce)'
    rc, txt = sh(['opt', '-passes=' + p, '-internalize-public-api-list=' + ','.join(names),
                  '-inline-threshold=100000000', '-inlinecold-threshold=100000000', '-inlinehint-threshold=100000000', '-inline-cold-callsite-threshold=100000000', '-S', a, '-o', b])
    if rc: raise BuildError('opt failed\n' + txt[-4000:])
    opt = open(b).read()
    os.unlink(a); os.unlink(b)
    return opt, raw

def contract_functions(raw, names):
    """library functions reachable from the harnesses in the unoptimised IR (these are inlined into the proof)"""
    calls = {}; cur = None
    for l in raw.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            cur = m.group(1); calls[cur] = set()
        elif cur and ('call ' in l or 'invoke ' in l):
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)', l): calls[cur].add(m.group(1))
        elif l.startswith('}'): cur = None
    seen = set(); work = [n for n in names if n in calls]
    while work:
        f = work.pop()
        if f in seen: continue
        seen.add(f)
        work.extend(x for x in calls.get(f, ()) if x in calls)
    fs = sorted(f for f in seen if 'LibFlatArray' in f)
    if not fs: return []
    p = subprocess.run(['c++filt'], input='\n'.join(fs).encode(), stdout=subprocess.PIPE)
    out = set()
    for l in p.stdout.decode().split('\n'):
        out.add(shorten(l))
    return sorted(out)

def shorten(s):
    """drop template arguments and parameter lists: one name per source function"""
    r = []; d = 0
    i = 0
    s = s.replace('operator<<', 'operator\x01').replace('operator>>', 'operator\x02').replace('operator<', 'operator\x03').replace('operator>', 'operator\x04').replace('operator()', 'operator\x05')
    for c in s:
        if c == '<': d += 1; continue
        if c == '>': d -= 1; continue
        if d: continue
        if c == '(': break
        r.append(c)
    t = ''.join(r)
    for a, b in (('\x01', '<<'), ('\x02', '>>'), ('\x03', '<'), ('\x04', '>'), ('\x05', '()')): t = t.replace(a, b)
    return t.split(' ')[-1] if ' ' in t and 'operator' not in t else t.strip()

def native(src, out, names, flags=(), san=True):
    """replay binary of a harness unit"""
    tab = out + '.tab.cpp'
    with open(tab, 'w') as f:
        f.write('struct entry { const char *name; void (*fn)(); };\n')
        for n in names: f.write('extern "C" void %s();\n' % n)
        f.write('extern entry vc_table[];\nentry vc_table[] = {\n')
        for n in names: f.write('{"%s", %s},\n' % (n, n))
        f.write('{0, 0}};\n')
    cmd = clang_args(flags) + ['-O1', '-g0', '-ftrivial-auto-var-init=pattern'] + (['-fsanitize=address', '-fno-sanitize-recover=all'] if san else []) + [src, os.path.join(HARNESS, 'replay.cpp'), tab, '-o', out]
    rc, txt = sh(cmd)
    os.unlink(tab)
    if rc: raise BuildError('native build failed\n' + txt[-3000:])
    return out

# ---- harnesses which do not compile against the current tree
def bodies(txt):
    """[(name or None, start, end)] of the harness definitions in a unit"""
    out = []
    for m in re.finditer(r'^VC_HARNESS\((\w+)\)', txt, re.M):
        i = txt.index('{', m.end()); d = 0; j = i
        while True:
            if txt[j] == '{': d += 1
            elif txt[j] == '}':
                d -= 1
                if d == 0: break
            j += 1
        out.append((m.group(1), m.start(), j + 1))
    for m in re.finditer(r'^VC_MATRIX(?:_F|_I|)\((\w+)\)', txt, re.M): out.append((None, m.start(), m.end()))
    return sorted(out, key=lambda x: x[1])

def slice_unit(txt, keep):
    """the unit with the harnesses in keep only"""
    keep = set(keep); r = []; pos = 0
    for name, a, b in bodies(txt):
        r.append(txt[pos:a]); pos = b
        if name is not None:
            if name in keep: r.append(txt[a:b])
            else: r.append('\n' * txt[a:b].count('\n'))
        else:
            f = re.match(r'VC_MATRIX(?:_F|_I|)\((\w+)\)', txt[a:b]).group(1)
            for t in ('float', 'double', 'int'):
                for n in (1, 2, 4, 8, 16, 32):
                    k = '%s_%s_%d' % (f, t, n)
                    if k in keep: r.append('extern "C" void %s() { %s<%s, %d>(); } ' % (k, f, t, n))
    r.append(txt[pos:])
    return ''.join(r)

def compiles(src, flags, gcc=False):
    a = clang_args(flags)
    if gcc: a[0] = 'g++'
    rc, out = sh(a + ['-fsyntax-only', src])
    return rc == 0, out
