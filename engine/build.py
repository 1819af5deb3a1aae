"""Builds the analyser and turns /repo's current sources into the JSON form the rules work on."""
import os, sys, json, hashlib, subprocess, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLDN_REPO', '/repo')
OUT = os.path.join(VERIF, '.build')
LIB = REPO + '/cloudini_lib'
LLVM = '/usr/lib/llvm-18'

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), (r.stderr or r.stdout)[-4000:]))
    return r.stdout

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name):
        os.makedirs(OUT, exist_ok=True); self.f = open(os.path.join(OUT, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def tools():
    """compile the analyser itself (never the project) when missing"""
    e = os.path.join(VERIF, 'engine')
    ir = os.path.join(OUT, 'cldnir-' + fhash([e + '/cldnir.cpp'])); lp = os.path.join(OUT, 'liblp-' + fhash([e + '/lpfeas.cpp']) + '.so')
    with Lock('tools'):
        jobs = []
        if not os.path.exists(ir):
            jobs.append((ir, ['clang++-18', '-O1', '-std=c++17', e + '/cldnir.cpp', '-o', ir + '.tmp', '-I%s/include' % LLVM, '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
                '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-L%s/lib' % LLVM, '-lLLVM-18', '-Wl,-rpath,%s/lib' % LLVM]))
        if not os.path.exists(lp):
            jobs.append((lp, ['g++', '-O2', '-shared', '-fPIC', e + '/lpfeas.cpp', '-o', lp + '.tmp', '-lgmpxx', '-lgmp']))
        def run(j): sh(j[1]); os.rename(j[0] + '.tmp', j[0])
        with ThreadPoolExecutor(2) as ex: list(ex.map(run, jobs))
    os.environ['CLDN_LP'] = lp
    return ir

BASE = ['clang++-18', '-std=gnu++20', '-msse4.1', '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
        '-emit-llvm', '-flto', '-fvisibility=hidden', '-fwhole-program-vtables', '-w', '-I' + LIB + '/include', '-I' + LIB + '/src', '-c']

def sources(group):
    """[(file, flags)] and the files the result depends on"""
    src = sorted(glob.glob(LIB + '/src/*.cpp'))
    hdr = [p for d in ('include', 'src', 'tools') for p in glob.glob(LIB + '/' + d + '/**/*.h*', recursive=True)]
    own = glob.glob(VERIF + '/inst/*') + [p for p in glob.glob(VERIF + '/stubs/**/*', recursive=True) if os.path.isfile(p)]
    stub = ['-I' + VERIF + '/stubs']
    if group == 'core':
        s = [p for p in src if os.path.basename(p) not in ('pcl_conversion.cpp',)]
        s += [VERIF + '/inst/inst_core.cpp']
        return [(p, stub) for p in s], s + hdr + own
    if group == 'pcl':
        s = [LIB + '/src/pcl_conversion.cpp', VERIF + '/inst/inst_pcl.cpp']
        return [(p, stub + ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/pcl-1.14', '-isystem', '/usr/include/vtk-9.1']) for p in s], s + hdr + own
    if group == 'tools':
        s = sorted(p for p in glob.glob(LIB + '/tools/src/*.cpp') if os.path.basename(p) not in ('mcap_codec_benchmark.cpp', 'mcap_header_inspector.cpp'))
        return [(p, stub + ['-I' + LIB + '/tools/include', '-DCLDN_STUBS']) for p in s], s + hdr + own
    raise KeyError(group)

def bitcode(group):
    s, deps = sources(group)
    s = [(p, f) for p, f in s if os.path.exists(p)]
    key = fhash([p for p in deps if os.path.exists(p)], group + ' '.join(BASE) + str(s))
    d = os.path.join(OUT, 'bc-%s-%s' % (group, key)); out = d + '.bc'
    with Lock(group):
        if os.path.exists(out): return out, key
        tmp = d + '.d'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        objs = []
        def comp(a):
            p, fl = a
            o = os.path.join(tmp, os.path.basename(p) + '.bc')
            sh(BASE + fl + [p, '-o', o]); return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, s))
        if group == 'tools':   # every tool has its own main
            sh(['llvm-link-18', '--override=' + objs[0]] + objs + ['-o', out + '.tmp']) if False else link_tools(objs, tmp, out)
        else: sh(['llvm-link-18'] + objs + ['-o', out + '.tmp'])
        if os.path.exists(out + '.tmp'): os.rename(out + '.tmp', out)
        shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        old = sorted(glob.glob(os.path.join(OUT, 'bc-%s-*.bc' % group)), key=os.path.getmtime)[:-3]
        for p in old: os.unlink(p)
    return out, key

def link_tools(objs, tmp, out):
    """rename the mains so that the translation units can be linked"""
    res = []
    for o in objs:
        r = o + '.m.bc'
        nm = os.path.basename(o).split('.')[0]
        ll = subprocess.run(['llvm-dis-18', o, '-o', '-'], capture_output=True, text=True).stdout
        ll = ll.replace('@main(', '@main_%s(' % nm)
        subprocess.run(['llvm-as-18', '-', '-o', r], input=ll, text=True, check=True)
        res.append(r)
    sh(['llvm-link-18'] + res + ['-o', out + '.tmp'])

INLINE = [r'^std::(min|max|move|forward|addressof|__addressof|get|swap|clamp|__get_helper|make_unique|exchange|as_const|__detail::|bit_cast)(<|$)', r'^std::__(is_constant|exchange|get_helper)', r'^__gnu_cxx::(?!__throw)',
    r'^std::unique_ptr<.*::(get|operator|unique_ptr|release|reset|get_deleter)', r'^std::__uniq_ptr', r'^std::(_Tuple|tuple|_Head)', r'^std::(_Optional|optional|array|numeric_limits|char_traits|bitset)',
    r'^std::__array_traits', r'^std::(_Construct|construct_at)(<|$)', r'^std::(any_of|all_of|none_of|find_if|find_if_not|for_each|count_if|accumulate|transform|copy_if)(<|$)', r'^std::__(find_if|find_if_not|count_if|iterator_category)', r'^std::iterator_traits', r'^std::function<.*>::(operator\(\)|operator bool)', r'^std::default_delete', r'^std::basic_string_view', r'^std::operator(==|!=)<char, std::char_traits<char>>\(std::basic_string_view']

def module(group, roots, raw=(), inline_extra=(), noinline=()):
    import ir
    tool = tools()
    bc, key = bitcode(group)
    cfg = dict(repo=REPO + '/', inline=INLINE + list(inline_extra), noinline=list(noinline), roots=list(roots), raw=list(raw))
    txt = json.dumps(cfg, sort_keys=True)
    k = hashlib.sha256((key + tool + txt).encode()).hexdigest()[:20]
    js = os.path.join(OUT, 'ir-%s-%s.json' % (group, k))
    with Lock('ir-' + k):
        if not os.path.exists(js):
            cf = js + '.cfg'; open(cf, 'w').write(txt)
            sh([tool, bc, cf, js + '.tmp']); os.rename(js + '.tmp', js); os.unlink(cf)
            for p in sorted(glob.glob(os.path.join(OUT, 'ir-*.json')), key=os.path.getmtime)[:-40]: os.unlink(p)
    try: os.unlink(os.path.join(OUT, 'ir-' + k + '.lock'))
    except OSError: pass
    return ir.Module(js)

if __name__ == '__main__':
    print(tools())
    for g in ('core', 'pcl'): print(bitcode(g))
