#!/usr/bin/env python3
"""Generates C++ message/service/config headers for the fake ROS layer.

usage: gen_ros.py REPO OUTDIR
 - standard ROS messages come from /verif/msgs/std.txt (fixed ROS API)
 - sensor_fusion_comm messages/services come from REPO/sensor_fusion_comm
 - *Config.h headers come from executing REPO/*/cfg/*.cfg against a recording
   stand-in for dynamic_reconfigure.parameter_generator_catkin
"""
import glob, os, re, sys, types, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
PRIM = {'bool': 'uint8_t', 'byte': 'int8_t', 'char': 'uint8_t', 'int8': 'int8_t', 'uint8': 'uint8_t',
        'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'float32': 'float', 'float64': 'double',
        'string': 'std::string', 'time': 'ros::Time', 'duration': 'ros::Duration'}


def parse_fields(text):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split('#')[0].strip()
        if not line:
            continue
        m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(.+)$', line)
        if m:
            consts.append((m.group(1), m.group(2), m.group(3).strip()))
            continue
        m = re.match(r'^(\S+)\s+(\w+)$', line)
        if not m:
            raise SystemExit('cannot parse message line: %r' % line)
        fields.append((m.group(1), m.group(2)))
    return fields, consts


def ctype(t, pkg):
    arr = None
    m = re.match(r'^(.*)\[(\d*)\]$', t)
    if m:
        t, arr = m.group(1), m.group(2)
    inc = None
    if t in PRIM:
        c = PRIM[t]
    else:
        if t == 'Header':
            t = 'std_msgs/Header'
        if '/' not in t:
            t = pkg + '/' + t
        p, n = t.split('/')
        c = '::%s::%s' % (p, n)
        inc = '%s/%s.h' % (p, n)
    if arr is not None:
        c = 'std::vector<%s>' % c if arr == '' else 'boost::array<%s, %s>' % (c, arr)
    return c, inc, arr


def gen_struct(pkg, name, text):
    fields, consts = parse_fields(text)
    incs, body, init = set(), [], []
    for t, n in fields:
        c, inc, arr = ctype(t, pkg)
        if inc:
            incs.add(inc)
        body.append('  typedef %s _%s_type;' % (c, n))
        body.append('  _%s_type %s;' % (n, n))
        if arr is None and t in PRIM and t not in ('string', 'time', 'duration'):
            init.append('%s(0)' % n)
        else:
            init.append('%s()' % n)
    for t, n, v in consts:
        body.append('  enum { %s = %su };' % (n, v) if t.startswith('u') else '  enum { %s = %s };' % (n, v))
    ctor = ('  %s()%s {%s}' % (name, (' : ' + ', '.join(init)) if init else '',
            ' '.join('%s.assign(0);' % n for t, n in fields if re.search(r'\[\d+\]$', t) and re.sub(r'\[.*', '', t) in PRIM)))
    s = ['struct %s {' % name, ctor] + body
    s += ['  typedef boost::shared_ptr< ::%s::%s> Ptr;' % (pkg, name),
          '  typedef boost::shared_ptr< ::%s::%s const> ConstPtr;' % (pkg, name), '};',
          'typedef boost::shared_ptr< ::%s::%s> %sPtr;' % (pkg, name, name),
          'typedef boost::shared_ptr< ::%s::%s const> %sConstPtr;' % (pkg, name, name)]
    return incs, '\n'.join(s)


PRE = '#include <string>\n#include <vector>\n#include <cstdint>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n'


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(s)


def write_msg(out, pkg, name, text):
    incs, s = gen_struct(pkg, name, text)
    write(os.path.join(out, pkg, name + '.h'),
          '#pragma once\n' + PRE + ''.join('#include <%s>\n' % i for i in sorted(incs)) +
          'namespace %s {\n%s\n}\n' % (pkg, s))


def write_srv(out, pkg, name, text):
    req, res = re.split(r'^---\s*$', text, maxsplit=1, flags=re.M)
    i1, s1 = gen_struct(pkg, name + 'Request', req)
    i2, s2 = gen_struct(pkg, name + 'Response', res)
    write(os.path.join(out, pkg, name + '.h'),
          '#pragma once\n' + PRE + ''.join('#include <%s>\n' % i for i in sorted(i1 | i2)) +
          'namespace %s {\n%s\n%s\nstruct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n}\n'
          % (pkg, s1, s2, name, name, name))


class Gen:
    instances = []

    def __init__(self, *a):
        self.params, self.consts, self.name, self.pkg = [], [], None, None

    def const(self, name, type_, value, descr=''):
        self.consts.append((name, type_, value))
        return {'name': name, 'type': type_, 'value': value, 'description': descr}

    def enum(self, consts, descr=''):
        return repr(consts)

    def add_group(self, *a, **k):
        return self

    def add(self, name, paramtype, level, description='', default=None, min=None, max=None, edit_method=''):
        self.params.append((name, paramtype, level, default))

    def generate(self, pkg, node, name):
        self.pkg, self.name = pkg, name
        Gen.instances.append(self)
        return 0


CT = {'bool': 'bool', 'int': 'int', 'double': 'double', 'str': 'std::string'}


def lit(t, v):
    if t == 'bool':
        return 'true' if v else 'false'
    if t == 'str':
        return '"%s"' % (v or '')
    if v is None:
        v = 0
    return repr(float(v)) if t == 'double' else repr(int(v))


def run_cfg(path):
    import io, contextlib
    mods = {}
    pg = types.ModuleType('dynamic_reconfigure.parameter_generator_catkin')
    pg.ParameterGenerator = Gen
    for n in CT:
        setattr(pg, n + '_t', n)
    dr = types.ModuleType('dynamic_reconfigure')
    dr.parameter_generator_catkin = pg
    dr.parameter_generator = pg
    rl = types.ModuleType('roslib')
    rl.load_manifest = lambda *_: None
    mods['dynamic_reconfigure'] = dr
    mods['dynamic_reconfigure.parameter_generator_catkin'] = pg
    mods['dynamic_reconfigure.parameter_generator'] = pg
    mods['roslib'] = rl
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    n0 = len(Gen.instances)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(compile(open(path).read(), path, 'exec'), {'__name__': '__main__', '__file__': path})
    except SystemExit:
        pass
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return Gen.instances[n0:]


def write_cfg(out, g):
    s = ['#pragma once', '#include <string>', '#include <cstdint>', '#include <dynamic_reconfigure/param_io.h>', 'namespace %s {' % g.pkg]
    s.append('struct %sConfig {' % g.name)
    for n, t, l, d in g.params:
        s.append('  %s %s;' % (CT[t], n))
    s.append('  %sConfig() : %s {}' % (g.name, ', '.join('%s(%s)' % (n, lit(t, d)) for n, t, l, d in g.params)))
    s.append('  template <class V> void visit(V& v) {')
    for n, t, l, d in g.params:
        s.append('    v("%s", %s, %uu);' % (n, n, int(l) & 0xffffffff))
    s.append('  }')
    s.append('  static %sConfig __getDefault__() { return %sConfig(); }' % (g.name, g.name))
    s.append('};')
    for n, t, v in g.consts:
        if t in ('int', 'double', 'bool'):
            s.append('static const %s %s_%s = %s;' % (CT[t], g.name, n, lit(t, v)))
    s.append('}')
    write(os.path.join(out, g.pkg, g.name + 'Config.h'), '\n'.join(s) + '\n')


def main():
    repo, out = sys.argv[1:3]
    cur, buf, msgs = None, [], []
    for line in open(os.path.join(HERE, '..', 'msgs', 'std.txt')):
        m = re.match(r'^== (\w+)/(\w+)\s*$', line)
        if m:
            cur = [m.group(1), m.group(2), '']
            msgs.append(cur)
        elif cur:
            cur[2] += line
    for p, n, t in msgs:
        write_msg(out, p, n, t)
    for f in sorted(glob.glob(os.path.join(repo, '*', 'msg', '*.msg'))):
        write_msg(out, f.split('/')[-3], os.path.basename(f)[:-4], open(f).read())
    for f in sorted(glob.glob(os.path.join(repo, '*', 'srv', '*.srv'))):
        write_srv(out, f.split('/')[-3], os.path.basename(f)[:-4], open(f).read())
    for f in sorted(glob.glob(os.path.join(repo, '*', 'cfg', '*.cfg'))):
        for g in run_cfg(f):
            write_cfg(out, g)


main()
