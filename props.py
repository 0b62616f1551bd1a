"""Build variants, and for every property the simulations that decide it."""
import random

_SMALL = ('-DMPACK_BUFFER_SIZE=33 -DMPACK_STACK_SIZE=33 -DMPACK_NODE_PAGE_SIZE=113 '
          '-DMPACK_BUILDER_PAGE_SIZE=157 -DMPACK_NODE_INITIAL_DEPTH=3 '
          '-DMPACK_TRACKING_INITIAL_CAPACITY=3 -DMPACK_EXTENSIONS=1 -DMPACK_COMPATIBILITY=1').split()
_DEBUG = ('-DMPACK_DEBUG=1 -DMPACK_CUSTOM_ASSERT=1 -DMPACK_CUSTOM_BREAK=1 '
          '-DMPACK_READ_TRACKING=1 -DMPACK_WRITE_TRACKING=1').split()
_ASAN = ('-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow '
         '-fno-sanitize-recover=undefined -fno-omit-frame-pointer').split()


def _v(cc, cxx, *flags, hflags='', lib=''):
    f = []
    for x in flags:
        f += x if isinstance(x, list) else x.split()
    return {'cc': cc, 'cxx': cxx, 'flags': f, 'hflags': hflags.split(),
            'lib': (lib or cc + ' -std=c11').split()}


# Build configurations of the library ("randomise tuning knobs"): tiny buffers
# and pages so that every boundary is crossed often, debug+tracking, sanitizers,
# 32-bit, size-optimised without realloc, and the shipped defaults.
VARIANTS = {
    'rel':   _v('gcc', 'g++', '-O1', _SMALL),
    'dbg':   _v('gcc', 'g++', '-O1', _SMALL, _DEBUG),
    'asan':  _v('clang', 'clang++', '-O1', _SMALL, _ASAN),
    'rel32': _v('gcc', 'g++', '-m32 -O1', _SMALL),
    'dbg32': _v('gcc', 'g++', '-m32 -O1', _SMALL, _DEBUG),
    'size':  _v('gcc', 'g++', '-O1', _SMALL, '-DMPACK_OPTIMIZE_FOR_SIZE=1 -DSIM_NO_REALLOC '
                '-DMPACK_BUILDER_INTERNAL_STORAGE=1 -DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=90'),
    'ship':  _v('gcc', 'g++', '-O2'),
    'asan32': _v('clang', 'clang++', '-m32 -O1', _SMALL, _ASAN),
    # the library is not optimised here: nothing removes or moves a bad access
    'dasan': _v('clang', 'clang++', '-O0', _SMALL, _DEBUG, _ASAN, hflags='-O1'),
    # the harness itself is excluded: what it writes counts as initialised
    'msan':  _v('clang', 'clang++', '-O1', _SMALL, '-fsanitize=memory -fno-omit-frame-pointer',
                hflags='-fsanitize-ignorelist=@SIM@/msan.ignore'),
    # no floating point, extensions, compatibility mode or strings
    'noext': _v('gcc', 'g++', '-O1', _SMALL[:6], '-DMPACK_FLOAT=0 -DMPACK_DOUBLE=0 -DMPACK_STRINGS=0'),
    # no C library (MPack's own memcpy etc.) and software double-to-float
    'nolib': _v('gcc', 'g++', '-O1', _SMALL, '-DMPACK_STDLIB=0 -DMPACK_STDIO=0 -DMPACK_DOUBLE=0 -DMPACK_NO_BUILTINS=1'),
    # no C library and no allocator
    'tiny':  _v('gcc', 'g++', '-O1', _SMALL, '-DMPACK_STDLIB=0 -DMPACK_STDIO=0 -DSIM_NO_MALLOC=1'),

    # tracking without debug mode: misuse is flagged, but nothing breaks
    'track': _v('gcc', 'g++', '-O1', _SMALL, '-DMPACK_READ_TRACKING=1 -DMPACK_WRITE_TRACKING=1'),
    # the library itself compiled as C++
    'cpp':   _v('gcc', 'g++', '-O1', _SMALL, lib='g++ -std=c++98 -x c++'),
}


def random_variant(n):
    """Configuration number n: compiler, optimisation, word size, sizes of all buffers and pages, features."""
    r = random.Random(n)
    f = []

    def opt(p, *flags):
        if r.random() < p:
            f.extend(x % r.choice(c) if c else x for x, c in flags)
    opt(.75, ('-DMPACK_BUFFER_SIZE=%d', [32, 33, 34, 40, 48, 64, 100, 128, 255, 256, 500]), ('-DMPACK_STACK_SIZE=%d', [33, 40, 64, 200]))
    opt(.75, ('-DMPACK_NODE_PAGE_SIZE=%d', [96, 100, 113, 128, 160, 200, 256, 333, 512, 1000]))
    opt(.75, ('-DMPACK_BUILDER_PAGE_SIZE=%d', [120, 128, 140, 157, 160, 180, 200, 256, 300, 512]))
    opt(.5, ('-DMPACK_NODE_INITIAL_DEPTH=%d', [1, 2, 3, 4, 8, 16]))
    opt(.5, ('-DMPACK_TRACKING_INITIAL_CAPACITY=%d', [1, 2, 3, 5, 8]))
    opt(.5, ('-DMPACK_EXTENSIONS=1', None))
    opt(.5, ('-DMPACK_COMPATIBILITY=1', None))
    opt(.35, *[(x, None) for x in _DEBUG])
    opt(.3, ('-DMPACK_OPTIMIZE_FOR_SIZE=1', None))
    opt(.3, ('-DSIM_NO_REALLOC', None))
    if r.random() < .4:
        f.extend(['-DMPACK_BUILDER_INTERNAL_STORAGE=1', '-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=%d' % r.choice([80, 90, 100, 128, 200])])
    opt(.15, ('-DMPACK_FLOAT=0', None))
    opt(.25, ('-DMPACK_DOUBLE=0', None))
    opt(.15, ('-DMPACK_STRINGS=0', None))
    opt(.3, ('-DMPACK_NO_BUILTINS=1', None))
    if r.random() < .15:
        f.append('-DMPACK_STDIO=0')
        opt(.5, ('-DMPACK_STDLIB=0', None))
    opt(.12, ('-DMPACK_BUILDER=0', None))
    cc = r.choice([('gcc', 'g++'), ('gcc', 'g++'), ('clang', 'clang++')])
    pre = ['-m32'] if r.random() < .35 else []
    pre.append(r.choice(['-O0', '-O1', '-O2', '-O3', '-Os']))
    if cc[0] == 'clang' and r.random() < .5:
        pre += _ASAN
    return _v(cc[0], cc[1], pre, f)


class _Variants(dict):
    def __missing__(self, k):
        if not k.startswith('rnd'):
            raise KeyError(k)
        return random_variant(int(k[3:]))


VARIANTS = _Variants(VARIANTS)

REAL = ['all of src/mpack (platform, common, writer, builder, reader, expect, node), compiled from the current tree',
        'glibc stdio (FILE buffering, ferror/feof, fseek/ftell) on top of the simulated disk']
STUB = ['network: simulated byte connections with bounded capacity, delay, cuts and resets (net engine)',
        'threads and clock: cooperative tasks and virtual time under the seeded scheduler (net engine)',
        'allocator (MPACK_MALLOC/REALLOC/FREE): simulated, with canaries, quarantine and injected failures',
        'disk: in-memory files behind fopencookie; fopen/fclose routed through the simulator',
        'flush/fill/skip/teardown/error callbacks: simulated peers',
        'mpack_assert/mpack_break: reported to the simulator']

# Classes of memory and control errors that violate any property.
COMMON_CLASSES = ['crash.', 'asan.', 'ubsan', 'assert', 'break', 'hang', 'bad-free', 'heap-overflow', 'use-after-free', 'uninit']

PROPS = {}


def prop(pid, classes, jobs, **kw):
    """jobs: 'engine:profile[*weight]@variant,variant ...' items."""
    js = []
    for item in jobs.split():
        spec, variants = item.split('@')
        engine, profile = spec.split(':')
        w = 1.0
        if '*' in profile:
            profile, ws = profile.split('*')
            w = float(ws)
        vs = variants.split(',')
        for v in vs:
            js.append((v, engine, profile, w / len(vs)))
    PROPS[pid] = dict(classes=classes.split(), jobs=js, **kw)


prop('W01', 'out. flush. growable. file. fixed. buffer. utf8. leak teardown. err.',
     'writer:plain*4@rel,dbg,asan,size,rel32,ship writer:file@rel writer:grow@rel huge:writer*0.3@rel,rel32 writer:flushmsg*0.3@rel writer:build*0.3@rel,size writer:plain*0.3@dasan')
prop('W02', 'out. flush. growable. file. fixed. buffer. leak teardown. err.',
     'writer:fault*4@rel,dbg,asan,size,rel32 writer:file@rel writer:plain@rel huge:writer*0.3@rel,rel32 writer:buildfault*0.4@rel,size writer:fault*0.3@dasan writer:handler*0.3@rel')
prop('W03', 'growable. leak out. err. fixed. flush_message.',
     'writer:grow*4@rel,dbg,asan,size,rel32,ship writer:flushmsg@rel huge:writer*0.5@rel,rel32,asan writer:buildfault*0.3@rel writer:handler*0.3@rel writer:fault*0.3@rel,size writer:grow*0.3@dasan')
prop('W04', 'out. flush. growable. file. leak err. fixed. teardown.',
     'writer:build*4@rel,dbg,asan,size,rel32,dbg32,ship writer:build*0.4@dasan,track writer:plain*0.2@rel')
prop('W05', 'out. flush. growable. file. leak err. fixed. teardown.',
     'writer:buildfault*4@rel,dbg,asan,size,rel32,dbg32 writer:handler*0.5@rel,size writer:buildfault*0.4@dasan,track')
prop('W06', 'file out. leak err. teardown. flush.',
     'writer:file*4@rel,dbg,asan,size,rel32 writer:handler*0.3@rel writer:file*0.3@dasan,ship')
prop('W07', 'misuse. flush_message. flush. out. err. growable. leak fixed. file.',
     'writer:flushmsg*4@rel,dbg,asan,size,rel32 misuse:always@rel,ship misuse:wtrack*0.6@dbg,track writer:plain*0.2@rel writer:flushmsg*0.3@dasan,ship')

_RD = 'read. trunc. bad. err. block. skip. fill. inplace. alloc. cstr. remaining. teardown. file leak'
prop('R01', _RD, 'reader:plain*4@rel,dbg,asan,size,rel32,ship reader:handoff@rel huge:reader*0.3@rel,rel32 reader:inplace*0.3@rel reader:alloc*0.3@rel reader:plain*0.3@dasan,track')
prop('R02', _RD, 'reader:fault*3@rel,dbg,asan,size,rel32 reader:corrupt*3@rel,asan,size,rel32,ship huge:reader*0.3@rel,rel32 reader:alloc*0.3@rel reader:inplace*0.3@rel reader:fault*0.3@dasan reader:file*0.3@rel')
prop('R03', _RD, 'reader:skip*4@rel,dbg,asan,size,rel32 reader:file@rel huge:reader*0.3@rel,rel32 reader:fault*0.3@rel reader:skip*0.3@dasan,ship')
prop('R04', _RD, 'reader:handoff*4@rel,dbg,asan,size,rel32 reader:file*0.3@rel reader:plain*0.2@rel reader:handoff*0.3@dasan,ship')
prop('R05', _RD, 'reader:inplace*4@rel,dbg,asan,size,rel32,ship huge:reader*0.3@rel,rel32 reader:fault*0.4@rel,size reader:inplace*0.3@dasan,track')
prop('R06', _RD, 'reader:alloc*4@rel,dbg,asan,size,rel32 reader:fault*0.5@rel,size reader:handler*0.4@rel,asan reader:alloc*0.3@dasan reader:corrupt*0.3@rel')
prop('R07', _RD, 'reader:file*4@rel,dbg,asan,size,rel32,ship reader:handler*0.3@rel reader:file*0.3@dasan')
_TR = 'tree. node. trunc. bad. err. limit. live. block. fill. teardown. file leak print.'
_TV = 'rel,dbg,asan,size,rel32'
prop('N01', _TR, 'tree:plain*4@rel,dbg,asan,size,rel32,ship tree:stream@rel tree:file@rel huge:tree*0.3@rel,rel32 tree:plain*0.3@dasan tree:limits*0.2@rel tree:access*0.2@rel')
prop('N02', _TR, 'tree:stream*4@rel,dbg,asan,size,rel32 tree:stream*0.3@dasan,ship tree:oom*0.2@rel tree:limits*0.2@rel')
prop('N03', _TR, 'tree:limits*4@rel,dbg,asan,size,rel32 huge:tree*0.4@rel,rel32 tree:corrupt*0.4@rel,rel32 tree:stream*0.2@rel tree:limits*0.3@dasan,ship')
prop('N04', _TR, 'tree:corrupt*4@rel,dbg,asan,size,rel32,ship huge:tree*0.3@rel,rel32 tree:corrupt*0.4@dasan,rel32 tree:file*0.2@rel tree:stream*0.2@rel')
prop('N05', _TR, 'tree:access*4@rel,dbg,asan,size,rel32,ship huge:tree*0.3@rel,rel32 tree:access*0.4@dasan tree:handler*0.3@rel tree:oom*0.2@rel')
prop('N06', _TR, 'tree:oom*4@rel,dbg,asan,size,rel32 tree:oom*0.4@dasan,ship tree:handler*0.3@rel tree:file*0.3@rel')
prop('N07', _TR, 'tree:file*4@rel,dbg,asan,size,rel32 tree:file*0.4@dasan,ship tree:handler*0.2@rel')
_XP = 'expect. read. trunc. bad. err. block. skip. fill. inplace. alloc. cstr. teardown. file leak'
prop('X01', _XP, 'expect:numbers*4@rel,dbg,asan,size,rel32,ship expect:fault@rel expect:mismatch*0.3@rel,size expect:numbers*0.3@dasan expect:corrupt*0.2@rel')
prop('X02', _XP, 'expect:plain*4@rel,dbg,asan,size,rel32,ship expect:alloc*2@rel,asan,rel32 expect:fault@rel huge:reader*0.3@rel,rel32 expect:mismatch*0.3@rel expect:corrupt*0.3@rel expect:plain*0.4@dasan expect:handler*0.3@rel expect:inplace*0.2@rel')
prop('X03', _XP, 'expect:keys*4@rel,dbg,asan,size,rel32,ship expect:inplace*2@rel,asan,dbg expect:keys*0.3@dasan expect:fault*0.3@rel expect:corrupt*0.3@rel expect:mismatch*0.2@rel')
prop('X04', _XP, 'expect:plain@rel,asan,ship expect:alloc*2@rel,asan,rel32 expect:corrupt*3@rel,rel32,dbg32 huge:reader*0.3@rel,rel32 huge:tree*0.2@rel32 expect:mismatch*0.3@rel expect:fault*0.3@rel expect:handler*0.3@rel expect:alloc*0.3@dasan')
prop('X05', _XP, 'expect:mismatch*2@rel,dbg,asan,size,rel32 expect:fault*2@rel,dbg,asan,ship expect:corrupt*2@rel,dbg,asan expect:handler*0.4@rel,asan expect:mismatch*0.3@dasan expect:alloc*0.3@rel expect:keys*0.2@rel')
prop('M01', 'read. trunc. bad. block. skip. fill. inplace. alloc. cstr. remaining. teardown. leak tree. node. limit. live. expect. buffer',
     'reader:corrupt*3@asan,asan32,msan,rel32,dasan tree:corrupt*3@asan,asan32,msan,rel32,dasan expect:corrupt*3@asan,asan32,msan,rel32,dasan '
     'reader:skip@asan,msan tree:oom@asan,msan,asan32 reader:fault@asan,msan expect:fault@asan,msan huge:reader*0.5@asan,asan32,msan huge:tree*0.5@asan,asan32,msan reader:plain*0.4@dasan expect:plain*0.4@dasan tree:access*0.4@dasan expect:alloc*0.3@dasan,asan32 reader:alloc*0.3@dasan,asan32')
prop('T01', 'misuse. err. flush. growable. leak tree. node. expect. read. remaining. buffer. file',
     'misuse:wtrack*3@dbg,dbg32,dasan,track misuse:rtrack*3@dbg,dbg32,dasan,track misuse:always*2@rel,dbg,asan,size,rel32,msan,ship')
prop('E01', 'err. flush. fill. out. read.on-error node.on-error expect.on-error teardown. leak file',
     'writer:fault@rel,dbg,asan writer:buildfault@rel,dbg writer:file@rel reader:fault@rel,dbg,asan reader:corrupt@rel reader:file@rel tree:oom@rel,dbg,asan tree:access@rel tree:file@rel expect:fault@rel,dbg misuse:always*0.5@rel,dbg,asan huge:writer*0.2@rel32 huge:reader*0.2@rel32 huge:tree*0.2@rel32 misuse:wtrack*0.4@dbg,track misuse:rtrack*0.4@dbg,track writer:handler*0.4@rel reader:handler*0.4@rel tree:handler*0.4@rel expect:handler*0.4@rel')
prop('E02', 'err. flush. fill. out. read.on-error node.on-error expect.on-error teardown. leak file growable. cstr.',
     'writer:handler*2@rel,dbg,asan,rel32 writer:buildfault@asan reader:handler*2@rel,dbg,asan,rel32 reader:file@asan tree:handler*2@rel,dbg,asan,rel32 expect:handler*2@rel,dbg,asan,rel32 misuse:wtrack*0.7@dbg,dasan,track misuse:rtrack*0.7@dbg,dasan,track misuse:always*0.5@asan,dbg writer:file*0.3@asan tree:file*0.3@asan')
_NT = 'net. err. flush. fill. flush_message. teardown. file leak'
prop('C01', _NT, 'net:rpc*3@rel,dbg,asan,size,rel32,ship net:pipeline*3@rel,dbg,asan,size net:relay*3@rel,dbg,asan,rel32,ship')
prop('C02', _NT, 'net:faulty*4@rel,dbg,asan,size,rel32,ship')
_GT = 'noext,nolib,tiny,cpp,size'
_ALL = ('out. flush. growable. fixed. buffer. utf8. leak teardown. err. flush_message. read. trunc. bad. block. skip. fill. '
        'inplace. alloc. cstr. remaining. file tree. node. limit. live. expect. misuse.')
prop('I01', _ALL + ' net. nest. print.', 'net:isolate*4@rel,dbg,asan,size,rel32,ship print:plain+nest@dbg ' + ' '.join(
    '%s+nest*0.6@rel,asan,dbg' % j for j in 'reader:plain reader:fault reader:alloc expect:plain expect:keys expect:fault tree:stream tree:plain '
    'writer:plain writer:fault writer:buildfault'.split()) + ' reader:file+nest*0.4@rel tree:file+nest*0.4@rel writer:file+nest*0.4@rel reader:plain+nest*0.4@ship')
_RJ = 'writer:plain writer:fault writer:build reader:plain reader:fault expect:plain expect:numbers expect:mismatch tree:plain tree:access tree:corrupt misuse:always'.split()
prop('G01', _ALL, ' '.join('%s@%s' % (j, _GT) for j in
                           'writer:plain*2 writer:fault writer:build reader:plain*2 reader:fault reader:inplace expect:plain expect:keys '
                           'expect:numbers*2 expect:mismatch tree:plain*2 tree:limits tree:access tree:corrupt misuse:always huge:writer*0.5 huge:reader*0.5 huge:tree*0.5'.split()) + ' ' +
     ' '.join('%s@rnd2,rnd3,rnd7' % j for j in _RJ), random_jobs=_RJ)
prop('D01', 'print. node. leak file err.', 'print:plain*3@dbg,dbg32,dasan print:fault*3@dbg,dbg32,dasan')
