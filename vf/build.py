"""Builds everything a check needs from /repo's current working tree, in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile
from . import zoo, harness
from .irparse import Module

REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src'


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=300):
    e = dict(os.environ)
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C'})
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode:
        raise BuildError(f'{" ".join(cmd)[:400]}: {r.stderr.decode(errors="replace")[-3000:]}')
    return r.stdout.decode(errors='replace')


WRAP = [f'-Wl,--wrap={n}' for n in ('malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZdlPv', '_ZdlPvm', '_ZdaPv')]


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf_')
        self.gen = self.dir + '/gen'
        os.mkdir(self.gen)
        self.zoo = zoo.build()
        self.generated = False
        self.mods = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- generator
    def generate(self):
        """run /repo's generator (a scratch copy of its Python package and templates) on the zoo"""
        if self.generated:
            return
        g = self.dir + '/generator'
        shutil.copytree(REPO + '/generator', g, ignore=shutil.ignore_patterns('__pycache__', '*_pb2.py', '*.pyc'))
        sh(['protoc', '-I', '.', '--python_out=EmbeddedProto', 'embedded_proto_options.proto'], cwd=g)
        py = next((p for p in (REPO + '/venv/bin/python', '/opt/vp/venv/bin/python') if os.path.exists(p)), 'python3')
        plug = self.dir + '/plugin.sh'
        with open(plug, 'w') as f:
            f.write(f'#!/bin/sh\ncd {g}\nPYTHONPATH={g}:$PYTHONPATH exec {py} -c "import sys; from EmbeddedProto.main import main_plugin; main_plugin()"\n')
        os.chmod(plug, 0o755)
        p = self.dir + '/proto'
        os.mkdir(p)
        for n, s in self.zoo.items():
            with open(f'{p}/{n}.proto', 'w') as f:
                f.write(s.proto())
        self.plug, self.protodir, self.gendir = plug, p, g
        self.generated = True

    def generate_one(self, n):
        self.generate()
        if os.path.exists(f'{self.gen}/{n}.h'):
            return
        names = [i.name for i in self.zoo[n].imports] + [n]
        sh(['protoc', f'--plugin=protoc-gen-eams={self.plug}', '-I', self.protodir, '-I', self.gendir, '--eams_out=' + self.gen] + [x + '.proto' for x in names], cwd=self.protodir)

    # ---- compilation
    def source(self, name):
        """harness source text of a unit: 'scalar', 'buffers', or a schema of the zoo"""
        if name == 'scalar':
            return harness.pre(SRC) + harness.scalar_lib()
        if name == 'buffers':
            return harness.pre(SRC) + harness.buffer_lib()
        if name == 'fields':
            return harness.pre(SRC) + harness.fields_lib()
        self.generate_one(name)
        s = self.zoo[name]
        incs = [i.name + '.h' for i in s.imports] + [name + '.h']
        msgs = [m for i in s.imports for m in i.all_msgs()] + s.all_msgs()
        return harness.pre(SRC, incs) + '\n'.join(harness.msg_lib(m) for m in msgs) + '\n' + harness.enum_lib(s)

    def tag(self, name, std, flags):
        return name + std.replace('+', 'p') + (''.join(c if c.isalnum() else '_' for c in ''.join(flags)))

    def prepare(self, name):
        if name not in ('scalar', 'buffers', 'fields'):
            self.generate_one(name)

    def ll(self, name, std='c++14', flags=()):
        """compile a unit to LLVM IR; returns the file name"""
        tag = self.tag(name, std, flags)
        cpp, ll, l2 = (f'{self.dir}/{tag}.{e}' for e in ('cpp', 'll', '2.ll'))
        if os.path.exists(l2):
            return l2
        with open(cpp, 'w') as f:
            f.write(self.source(name))
        sh(['clang++', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-rtti', '-w',
            '-gline-tables-only', '-S', '-emit-llvm', '-I' + SRC, '-I' + self.gen, *flags, cpp, '-o', ll])
        sh(['opt', '-S', '-passes=function(sroa,instsimplify,simplifycfg)', ll, '-o', l2 + '.t'])
        os.rename(l2 + '.t', l2)
        return l2

    def header_error(self, name):
        """why the generator fails on a schema, or the generated header does not compile; None if it does"""
        try:
            self.generate_one(name)
            cpp = f'{self.dir}/h_{name}.cpp'
            with open(cpp, 'w') as f:
                f.write(f'#include "{name}.h"\nint main() {{ return 0; }}\n')
            sh(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I' + SRC, '-I' + self.gen, cpp])
        except BuildError as e:
            return str(e)[-600:]
        return None

    def ir(self, name, std='c++14', flags=()):
        key = (name, std, tuple(flags))
        if key not in self.mods:
            with open(self.ll(name, std, flags)) as f:
                self.mods[key] = Module(f.read())
        return self.mods[key]

    def native(self, name, san=True, std='c++14', flags=()):
        tag = f'n_{name}' + ('_a' if san else '') + (''.join(c if c.isalnum() else '_' for c in ''.join(flags)))
        cpp, so = f'{self.dir}/{tag}.cpp', f'{self.dir}/{tag}.so'
        if os.path.exists(so):
            return so
        with open(cpp, 'w') as f:
            f.write(self.source(name))
        opt = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,vptr'] if san else ['-O1']
        sh(['clang++', '-std=' + std, '-DNATIVE', '-fPIC', '-shared', '-w', '-fno-exceptions', *opt, '-I' + SRC, '-I' + self.gen, *flags, cpp, '-o', so] + WRAP +
           (['-shared-libasan'] if san else []))
        return so
