"""coverage.py OUT ID...: runs quick checks with a driver that counts coverage
of /repo's sources (development only); leaves OUT/all.profdata and the report."""
import glob, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import build as B, core
out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
B.BUILD = out + '/build'
B.VARIANTS['plain'] = ('-O0 -g1 -fprofile-instr-generate -fcoverage-mapping', '-fprofile-instr-generate')
os.environ['LLVM_PROFILE_FILE'] = out + '/p-%8m.profraw'
sys.path.insert(0, V + '/bin')
src = open(V + '/bin/check').read().split('def main')[0]
ns = {'__file__': V + '/bin/check', '__name__': 'x'}
exec(src, ns)
import importlib
for pid in sys.argv[2:]:
    ctx = core.Ctx(pid, 'quick')
    getattr(importlib.import_module(ns['MODULE'][pid]), pid)(ctx)
    print(pid, ctx.traces, len(ctx.violations), flush=True)
raws = glob.glob(out + '/*.profraw')
subprocess.run(['llvm-profdata', 'merge', '-o', out + '/all.profdata', *raws], check=True)
exe = out + '/build/plain/driver'
subprocess.run(f'llvm-cov report {exe} -instr-profile {out}/all.profdata /repo/src /repo/include > {out}/report.txt', shell=True)
subprocess.run(f'llvm-cov show {exe} -instr-profile {out}/all.profdata /repo/src /repo/include -show-branches=count > {out}/show.txt', shell=True)
