"""Compilation of harness translation units against /repo's current headers."""
import os
import subprocess

REPO = os.environ.get('VP_REPO', '/repo')
INC = ['-I' + REPO + '/include', '-I/usr/include/eigen3']
PRE = '''#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <vector>
#include <utility>
#include <memory>
#include <cstdlib>
extern "C" double vp_in(long k);
extern "C" void vp_out(long k, double v);
'''
DEFS = ['-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-DEIGEN_ASM_COMMENT(X)=', '-w']
CLANG = ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize',
         '-ffp-contract=off', '-fno-exceptions', '-fno-threadsafe-statics', '-S', '-emit-llvm']
PASSES = 'function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg)),globaldce'
GXX = ['g++', '-std=c++17', '-g', '-O0', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-w']


def tu(progs):
    """source of one translation unit; progs: list of (symbol, Prog)"""
    return PRE + tu_body(progs)


def tu_body(progs):
    out = []
    for sym, p in progs:
        if p.pre:
            out.append('namespace ns_%s {\n%s\n}' % (sym, p.pre))
    for sym, p in progs:
        ns = 'using namespace ns_%s;\n' % sym if p.pre else ''
        out.append('extern "C" void %s() {\n%s%s\n}' % (sym, ns, p.body()))
    return '\n'.join(out)


def run(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')


def precompile(work):
    """/repo's headers, parsed once per run (everything is compiled without it when that fails)"""
    hpp, pch = os.path.join(work, 'pre.hpp'), os.path.join(work, 'pre.pch')
    with open(hpp, 'w') as f:
        f.write(PRE)
    r = run([x for x in CLANG if x not in ('-S', '-emit-llvm')] + INC + DEFS + ['-x', 'c++-header', hpp, '-o', pch])
    return None if r.returncode else pch


def compile_ir(progs, base, pch=None):
    cpp, ll, out = base + '.cpp', base + '.ll', base + '.opt.ll'
    with open(cpp, 'w') as f:
        f.write(tu_body(progs) if pch else tu(progs))
    r = run(CLANG + (['-include-pch', pch] if pch else []) + INC + DEFS + [cpp, '-o', ll])
    if r.returncode and pch:
        return compile_ir(progs, base)
    if r.returncode:
        return None, r.stdout
    r = run(['opt-18', '-passes=' + PASSES, '-S', ll, '-o', out])
    if r.returncode:
        return None, r.stdout
    os.unlink(ll)
    return out, ''


NATIVE_MAIN = r'''
#include <cstdio>
#include <map>
static std::map<long, double> vp_inputs;
extern "C" double vp_in(long k) { auto it = vp_inputs.find(k); return it == vp_inputs.end() ? 0.8125 + (k % 97) * 0.0625 : it->second; }
extern "C" void vp_out(long k, double v) { std::printf("%ld %a\n", k, v); std::fflush(stdout); }
int main(int argc, char** argv) {
  FILE* f = std::fopen(argv[1], "r"); long k; double v;
  while (f && std::fscanf(f, "%ld %la", &k, &v) == 2) vp_inputs[k] = v;
  if (f) std::fclose(f);
  vp_entry();
  std::printf("done\n");
  return 0;
}
'''


def native_source(prog):
    return tu([('vp_entry', prog)]) + NATIVE_MAIN


def compile_native(prog, base):
    cpp = base + '.native.cpp'
    with open(cpp, 'w') as f:
        f.write(native_source(prog))
    exe = base + '.exe'
    r = run(GXX + INC + [cpp, '-o', exe])
    if r.returncode:
        return None, r.stdout
    return exe, ''


def run_native(exe, inputs, base, timeout=60):
    """inputs: {k: float} -> ({k: float}, crashed message or None)"""
    fn = base + '.in'
    with open(fn, 'w') as f:
        for k, v in inputs.items():
            f.write('%d %s\n' % (k, float(v).hex() if v == v and abs(v) != float('inf') else repr(v)))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=254:symbolize=0'
    try:
        r = subprocess.run([exe, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return {}, 'timeout'
    out = {}
    done = False
    for ln in r.stdout.split('\n'):
        w = ln.split()
        if len(w) == 2:
            try:
                out[int(w[0])] = float.fromhex(w[1]) if w[1].lstrip('-').startswith('0x') else float(w[1])
            except ValueError:
                pass
        elif w == ['done']:
            done = True
    if r.returncode != 0 or not done:
        msg = [l for l in r.stderr.split('\n') if 'Assertion' in l or 'ERROR: AddressSanitizer' in l]
        return out, (msg[0] if msg else 'exit status %d %s' % (r.returncode, r.stderr[-300:]))
    return out, None
