"""mechanical compilation of the real headers to LLVM IR (no source is rewritten)"""
import os, subprocess, re, hashlib, tempfile, shutil
from . import ir
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class CompileError(Exception): pass

PASSES = 'coro-early,function(sroa)'
PASSES_CORO = 'coro-early,cgscc(coro-split),coro-cleanup,function(sroa)'

def scratch():
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='vc_')
        os.environ['VERIF_SCRATCH'] = d
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    os.makedirs(d, exist_ok=True)
    return d

def compile_tu(src, flags=(), coro=False, layouts=False):
    d = scratch()
    key = hashlib.sha1((src + repr(flags) + str(coro)).encode()).hexdigest()[:10]
    base = os.path.join(d, os.path.basename(src).replace('.cpp', '') + '_' + key)
    ll0, ll1, lay = base + '.0.ll', base + '.ll', base + '.lay'
    cmd = ['clang++-18', '-std=c++20', '-I' + REPO + '/include', '-I' + VERIF + '/tu', '-O0', '-Xclang', '-disable-O0-optnone',
           '-fno-discard-value-names', '-fno-crash-diagnostics', '-gline-tables-only', '-w', '-S', '-emit-llvm', src, '-o', ll0] + list(flags)
    if layouts: cmd += ['-Xclang', '-fdump-record-layouts']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: raise CompileError(p.stderr[-3000:])
    open(lay, 'w').write(p.stdout)
    p = subprocess.run(['opt-18', '-S', '-passes=' + (PASSES_CORO if coro else PASSES), ll0, '-o', ll1], capture_output=True, text=True)
    if p.returncode != 0: raise CompileError(p.stderr[-3000:])
    m = ir.Module(ll1)
    m.layouts = parse_layouts(p_layout(lay)) if layouts else {}
    m.cmd = ' '.join(cmd[:4] + ['...', '-emit-llvm', os.path.basename(src)])
    return m

def p_layout(path): return open(path).read()

def parse_layouts(txt):
    """record name -> list of (offset, depth, type, name)"""
    out = {}; cur = None
    for line in txt.split('\n'):
        if line.startswith('*** Dumping AST Record Layout'):
            cur = None; continue
        m = re.match(r'^\s*(\d+)(?::[\d-]+)? \|(\s+)(.*)$', line)
        if m:
            off = int(m.group(1)); depth = (len(m.group(2)) - 1) // 2; rest = m.group(3).strip()
            if depth == 0:
                nm = re.sub(r'^(class|struct|union) ', '', rest)
                nm = re.sub(r' \(empty\)$', '', nm)
                cur = []; out[nm] = cur
                continue
            if cur is None: continue
            rest = re.sub(r' \(empty\)$', '', rest)
            if rest.endswith('(base)') or rest.endswith('(primary base)') or rest.endswith('vtable pointer)'):
                cur.append((off, depth, rest, '')); continue
            mm = re.match(r'^(.*\S)\s+(\S+)$', rest)
            if mm: cur.append((off, depth, mm.group(1), mm.group(2)))
        m = re.match(r'^\s*\|\s*\[sizeof=(\d+),.*align=(\d+)', line)
        if m and cur is not None:
            cur.append(('sizeof', int(m.group(1)), int(m.group(2)), ''))
    return out

class Layout:
    def __init__(self, name, rec):
        self.name = name; self.rec = [r for r in rec if r[0] != 'sizeof']
        self.size = [r for r in rec if r[0] == 'sizeof'][0][1]
    def off(self, field, type_rx=None, depth=1):
        """offset of a member by name; if it was renamed, the unique member whose type matches type_rx"""
        c = [r for r in self.rec if r[3] == field and (depth is None or r[1] == depth)]
        if not c: c = [r for r in self.rec if r[3] == field]
        if len(c) >= 1: return c[0][0]
        if type_rx:
            c = [r for r in self.rec if r[1] == 1 and re.search(type_rx, r[2])]
            if len(c) == 1: return c[0][0]
        raise KeyError('member %s not found in %s' % (field, self.name))
    def has(self, field): return any(r[3] == field for r in self.rec)
