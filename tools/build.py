#!/usr/bin/env python3
"""Compiles /repo's current working tree and the simulator into one program.
usage: build.py [plain|asan|race] -> prints the path of the program"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SIM_REPO', '/repo')
variant = sys.argv[1] if len(sys.argv) > 1 else 'plain'
B = os.path.join(os.environ.get('SIM_BUILD', os.path.join(V, 'build')), variant)
os.makedirs(B, exist_ok=True)
cxx, cc = 'g++-11', 'gcc-11'
# the sources the project itself builds
srcs = []
for d, _, files in os.walk(os.path.join(R, 'src')):
    if 'CMakeLists.txt' not in files: continue
    text = re.sub(r'#.*', '', open(os.path.join(d, 'CMakeLists.txt')).read())
    for w in re.findall(r'[\w./${}-]+\.(?:cpp|cxx|c)\b', text):
        w = w.replace('${CMAKE_CURRENT_SOURCE_DIR}/', '').replace('${CMAKE_CURRENT_LIST_DIR}/', '')
        f = os.path.normpath(os.path.join(d, w))
        if os.path.exists(f) and f not in srcs: srcs.append(f)
srcs = sorted(s for s in srcs if 'Thallium' not in s and not s.endswith('mlog2.c'))
sim = sorted(os.path.join(V, 'sim', f) for f in os.listdir(os.path.join(V, 'sim')) if f.endswith('.cpp'))
defs = '-DHXHIM_HAVE_LEVELDB=1 -DHXHIM_HAVE_ROCKSDB=1 -DSYSTEM_BIG_ENDIAN=0 -DDEBUG'
inc = f'-I{V}/sim/mpi -I{R}/include -I{V}/sim'
opt = '-O1 ' + os.environ.get('SIM_G', '-g1') + ' -fno-omit-frame-pointer -w -pthread'
repo_extra = sim_extra = link_extra = ''
if variant == 'asan':
    repo_extra = sim_extra = '-fsanitize=address -DSIM_ASAN'
    link_extra = '-fsanitize=address -static-libasan'
if variant == 'race':
    repo_extra = '-fsanitize=thread -DSIM_RACE'
    sim_extra = '-DSIM_RACE'
post = ''
if variant == 'race': post = ' && objcopy ' + ' '.join(f'--redefine-sym {f}=race_{f}' for f in ('memcpy', 'memmove', 'memset', 'memcmp'))
L = ['builddir = ' + B,
     'rule cxx', f'  command = {cxx} -std=c++17 {opt} {defs} {inc} $extra -MMD -MF $out.d -c $in -o $out $post', '  depfile = $out.d', '  deps = gcc',
     'rule cc', f'  command = {cc} {opt} {defs} {inc} $extra -MMD -MF $out.d -c $in -o $out $post', '  depfile = $out.d', '  deps = gcc',
     'rule link', f'  command = {cxx} -no-pie -rdynamic -pthread @$out.rsp -o $out {link_extra} -lleveldb -lrocksdb -ldl', '  rspfile = $out.rsp', '  rspfile_content = $in']
objs = []
for s in srcs + sim:
    o = os.path.join(B, os.path.relpath(s, '/').replace('/', '_') + '.o')
    rule = 'cc' if s.endswith('.c') else 'cxx'
    L += [f'build {o}: {rule} {s}', '  extra = ' + (sim_extra if s in sim else repo_extra)]
    if s not in sim: L.append('  post = ' + (post + ' ' + o if post else ''))
    objs.append(o)
out = os.path.join(B, 'simcheck')
L += [f'build {out}: link ' + ' '.join(objs), f'default {out}', '']
nj = os.path.join(B, 'build.ninja')
text = '\n'.join(L)
if not os.path.exists(nj) or open(nj).read() != text: open(nj, 'w').write(text)
r = subprocess.run(['ninja', '-f', nj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    sys.stderr.write(r.stdout[-6000:])
    sys.exit(3)
print(out)
