"""Compile a driver to LLVM IR from /repo's current tree and load it."""
import subprocess, os, re, hashlib, tempfile, shutil
from . import llvm
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'; OPT = '/usr/bin/opt-18'
INC = ['-I'+VERIF+'/drivers', '-I'+VERIF+'/cfg', '-I'+REPO, '-I/opt/dune/prefix/include']
FLAGS = ['-std=c++20','-DHAVE_CONFIG_H','-DNDEBUG','-O1','-Xclang','-disable-llvm-passes','-ffp-contract=off','-fno-discard-value-names','-fno-access-control','-w']
SIMP = 'sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>'
PASSES = ('function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),'
          'cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),'
          'function(%s,loop-simplify,loop(loop-unroll-full),%s,loop-simplify),globaldce' % (SIMP, SIMP))
class BuildError(Exception): pass
def compile_ir(src, defs=(), out=None, flags=(), passes=None, noinline=False):
    d = out
    os.makedirs(d, exist_ok=True)
    tag = os.path.basename(src).split('.')[0] + '_' + hashlib.md5(' '.join(defs).encode()).hexdigest()[:8]
    a, b = os.path.join(d, tag+'.0.ll'), os.path.join(d, tag+'.ll')
    r = subprocess.run([CLANG]+FLAGS+list(flags)+['-D'+x for x in defs]+INC+['-S','-emit-llvm',src,'-o',a], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    ps = passes or PASSES; text = open(src).read()
    if 'VC-EXTERN-STD' in text: ps = 'elim-avail-extern,' + ps          # explicitly instantiated library templates stay calls
    m = re.search(r'VC-OPAQUE(-RE)?:(.*)', text)
    if m:                                                               # these functions are not inlined but left to their contracts
        names = m.group(2).split(); out = []; hit = (lambda l: any(re.search(n, l[l.index('@'):l.index('(')]) for n in names)) if m.group(1) else lambda l: any('@'+n+'(' in l for n in names)
        for l in open(a):
            if l.startswith('define ') and hit(l): l = re.sub(r'\) ([^()]*)#(\d+)', r') \1noinline #\2', l, count=0) if ' #' in l else l
            out.append(l)
        open(a,'w').writelines(out)
    r = subprocess.run([OPT,'-inline-threshold=100000','-S','-passes='+ps,a,'-o',b], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    os.unlink(a)
    return b
def load(src, defs=(), out=None, **kw):
    return llvm.Module(compile_ir(src, defs, out, **kw))
