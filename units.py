"""The verification units of every property: harness, bounds per tier."""
FS = ['--fork-select']
def U(name, src, defs='', **kw): return dict(name=name, src=src, defs=defs.split(), **kw)
PROPS = {}
def prop(pid, **kw):
    def deco(f): PROPS[pid] = dict(units=f, **kw); return f
    return deco
@prop('P05', note='bounded: symbolic 64-bit keys and values, up to 6 concrete + 1 symbolic or 4 fully symbolic inserts (5 entries per node via 808-byte keys), every path; one lookup and one scan after them')
def p05(t):
    q = t == 'quick'; r = []
    for lay in (0, 1):
        r += [U('empty%d' % lay, 'p05.cpp', '-DLAYOUT=%d -DNPRE=0 -DNSYM=%d' % (lay, 4 if q else 5), time=30 if q else 300),
              U('pre%d' % lay, 'p05.cpp', '-DLAYOUT=%d -DNPRE=6 -DNSYM=1' % lay, time=30 if q else 300)]
    return r
@prop('P06', note='bounded: 2 threads x 1-2 operations on trees just before/after a split, symbolic keys, every interleaving with at most 1-2 preemptions under sequential consistency')
def p06(t):
    q = t == 'quick'; r = []; p = 1 if q else 2
    for lay in (0, 1):
        for nm, mode, sz, pr in (('ins', 0, '{5}' if q else '{4,5,9}', p), ('ins9', 0, '{9}' if q else '{11,13}', 1), ('read', 1, '{5,8}' if q else '{5,8,11}', 2), ('readold', 2, '{5}' if q else '{5,9}', p), ('scan', 3, '{5}' if q else '{5,9}', p)):
            r.append(U('%s%d' % (nm, lay), 'p06.cpp', '-DLAYOUT=%d -DMODE=%d -DSIZES=%s -DPRE=%d' % (lay, mode, sz, pr), thr=True, time=25 if q else 300))
    return r
@prop('P12', note='bounded: up to 3 (quick) or 4 (thorough) fully symbolic operations from empty, or 1-2 symbolic operations on trees of 12-13 (16) keys built in 4 insertion orders and thinned by every one of 5 erase patterns; 3 or 5 values per node; 64-bit and 2-byte string keys; every path')
def p12(t):
    q = t == 'quick'; r = []; T = lambda a, b: a if q else b
    r.append(U('map3', 'p12.cpp', '-DMULTI=0 -DTNS=64 -DNSYM=%d -DOPS=6 -DQ=2' % T(3, 4), time=T(40, 600), opts=FS))
    r.append(U('multi3', 'p12.cpp', '-DMULTI=1 -DTNS=64 -DNSYM=%d -DOPS=5 -DQ=2' % T(3, 4), time=T(40, 600), opts=FS))
    r.append(U('map13', 'p12.cpp', '-DMULTI=0 -DTNS=64 -DEM=%d -DNPRE=%d -DNPREMIN=13 -DNSYM=1 -DOPS=6 -DQ=2' % T((1, 13), (0, 17)), time=T(40, 600), opts=FS))
    r.append(U('multi13', 'p12.cpp', '-DMULTI=1 -DTNS=96 -DEM=%d -DNPRE=%d -DNPREMIN=%d -DNSYM=1 -DOPS=5 -DQ=2' % (T(1, 0), T(12, 20), T(12, 12)), time=T(40, 600), opts=FS))
    r.append(U('mapq', 'p12.cpp', '-DMULTI=0 -DTNS=64 -DNPRE=%d -DNPREMIN=%d -DNSYM=0 -DOPS=1 -DQ=1' % (T(13, 26), T(13, 10)), time=T(40, 600), opts=FS))
    r.append(U('multiq', 'p12.cpp', '-DMULTI=1 -DTNS=64 -DNPRE=%d -DNPREMIN=%d -DNSYM=2 -DOPS=2 -DQ=1' % (T(3, 4), T(3, 3)), time=T(40, 600), opts=FS))
    r.append(U('copy', 'p12.cpp', '-DMULTI=0 -DTNS=64 -DNPRE=%d -DNPREMIN=%d -DNSYM=1 -DOPS=1 -DCOPY=1' % (T(8, 13), T(8, 7)), time=T(40, 600), opts=FS))
    r.append(U('str', 'p12.cpp', '-DMULTI=0 -DTNS=128 -DNPRE=%d -DNPREMIN=%d -DNSYM=1 -DOPS=%d -DSTRKEY=1 -DQ=2' % (T(4, 7), T(4, 4), T(3, 6)), time=T(40, 600), opts=FS))
    return r

STX = dict(incs=['STX/tlx'], opts=FS)
@prop('P13', note='bounded: map, multimap, set and multiset with 4 slots per node (5 in thorough), linear and binary in-node search: up to 3 (4) fully symbolic operations from empty; 1-2 symbolic operations on trees of 20-21 (26) keys built in 4 insertion orders and thinned by 5 erase patterns, or bulk-loaded with up to 40 (80) items; symbolic 64-bit keys; every path')
def p13(t):
    q = t == 'quick'; r = []; T = lambda a, b: a if q else b
    for kind, nm in enumerate(('map', 'multimap', 'set', 'multiset')):
        b = kind in (1, 2); d = '-DKIND=%d -DSLOTS=%d -DBIN=%d ' % (kind, T(4, 4), b)
        ops = 6 if kind == 0 else 5
        r.append(U(nm + 'sym', 'p13.cpp', d + '-DNSYM=%d -DOPS=%d' % (T(3, 4), ops), time=T(30, 600), **STX))
        r.append(U(nm + 'pre', 'p13.cpp', d + '-DNPRE=%d -DNPREMIN=%d -DNSYM=1 -DOPS=%d %s' % (T(20, 26), T(20, 18), ops, '-DEM=1' if q else ''), time=T(30, 600), **STX))
    for kind, nm in ((0, 'map'), (1, 'multimap')):
        d = '-DKIND=%d -DSLOTS=%d -DBIN=%d ' % (kind, T(4, 5), kind == 0)
        r.append(U(nm + 'bulk', 'p13.cpp', d + '-DBULK=1 -DNPRE=%d -DNPREMIN=1 -DNSYM=1 -DOPS=5' % T(26, 80), time=T(30, 600), **STX))
        r.append(U(nm + 'q', 'p13.cpp', d + '-DNPRE=%d -DNPREMIN=%d -DNSYM=%d -DOPS=2 -DQ=1 %s' % (T(9, 22), T(9, 9), T(1, 1), '-DEM=1' if q else ''), time=T(30, 600), **STX))
        r.append(U(nm + 'copy', 'p13.cpp', d + '-DCOPY=1 -DNPRE=%d -DNPREMIN=%d -DNSYM=%d -DOPS=2 %s' % (T(9, 16), T(8, 8), T(1, 1), '-DEM=1'), time=T(30, 600), **STX))
    return r

@prop('P07', note='bounded: 6 node-capacity configurations (2..8 entries); up to 3 (4) fully symbolic operations from empty or 1-2 symbolic operations and scans on trees of 14-20 (26) keys built in 4 insertion orders; symbolic 64-bit keys; every path; latch use checked by a counting latch')
def p07(t):
    q = t == 'quick'; T = lambda a, b: a if q else b
    return [U('sym', 'p07.cpp', '-DCAPS={0,1,2} -DNSYM=%d -DOPS=3 -DQ=%d' % (T(3, 4), T(1, 1)), time=T(30, 900), opts=FS),
      U('sym4', 'p07.cpp', '-DCAPS={0,1} -DNSYM=%d -DOPS=2 -DQ=0' % T(4, 5), time=T(30, 900), opts=FS),
      U('pre', 'p07.cpp', '-DCAPS={0,1,2,3,4,5} -DNPRE=%d -DNPREMIN=%d -DNSYM=1 -DOPS=3 -DQ=0' % (T(20, 32), T(17, 14)), time=T(30, 600), opts=FS),
      U('scan', 'p07.cpp', '-DCAPS={0,2,3} -DNPRE=%d -DNPREMIN=%d -DNSYM=%d -DOPS=2 -DQ=1' % (T(8, 14), T(8, 7), T(1, 1)), time=T(30, 600), opts=FS),
      U('scanpre', 'p07.cpp', '-DCAPS={0,1,2,3,4,5} -DNPRE=%d -DNPREMIN=%d -DNSYM=0 -DOPS=1 -DQ=1' % (T(15, 24), T(14, 9)), time=T(30, 600), opts=FS)]
@prop('P08', note='bounded: 2-3 threads x 1-2 operations on trees right before splits at leaf, inner and root level (2-3 entries per node), symbolic keys; latches with 2-3 threads and symbolic data; every interleaving with at most 1-2 (3) preemptions under sequential consistency')
def p08(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    for m, nm, cap, sz, p in ((0, 'ins', 2, T('{1,3,7}', '{1,2,3,5,7}'), 1), (0, 'ins3', 3, T('{2,6}', '{2,4,6,8}'), T(1, 2)), (1, 'read', 2, T('{1,3,7}', '{1,3,5,7}'), 1), (2, 'upd', 2, T('{3}', '{2,3,5,7}'), 1), (3, 'updread', 3, '{2}', T(1, 2)), (4, 'three', 2, T('{1}', '{1,3}'), 1)):
        r.append(U(nm, 'p08.cpp', '-DMODE=%d -DNCAP=%d -DSIZES=%s -DPRE=%d %s' % (m, cap, sz, p, ''), thr=True, time=T(25, 600), opts=FS))
    for nm, wlo, wn, sz, desc, blo, cap in (('look2', 0, 2, '{2}', 2, 0, 2), ('look5', 0, 2, '{5}', T(1, 2), T(3, 0), 2), ('scan2', 2, 1, T('{2}', '{2,3}'), T(1, 2), T(1, 0), 2), ('scan4', 2, 1, '{4}', T(0, 2), T(4, 2), 3)):
        r.append(U(nm, 'p08.cpp', '-DMODE=5 -DNCAP=%d -DSIZES=%s -DPRE=%d -DWHATLO=%d -DWHATN=%d -DDESC=%d -DBASELO=%d' % (cap, sz, 1, wlo, wn, desc, blo), thr=True, time=T(25, 600), opts=FS))
    for std in (0, 1):
        for nw, nth, rep, p in ((1, 2, 2, T(3, 4)), (1, 3, 1, T(1 + std, 2)), (2, 3, 1, T(1 + std, 2)), (2, 2, 2, T(3, 4))): r.append(U('latch%d_%d%d' % (std, nw, nth), 'p08.cpp', '-DLATCH=1 -DREP=%d -DNTH=%d -DNW=%d -DPRE=%d -DSTDLATCH=%d' % (rep, nth, nw, p, std), thr=True, time=T(20, 300)))
    return r

FAN = lambda f, k, n: '-DFANS={%s} -DKEEPS={%s} -DNPRE=%d' % (f, k, n)
def p01units(t, d, ops, **kw):
    q = t == 'quick'; T = lambda a, b: a if q else b; kw = dict(kw, opts=FS, cflags=['-fno-access-control']); O = d + ' -DOPS=%d ' % ops; r = []
    r.append(U('sym3', 'p01.cpp', O + '-DCFGS=%s -DNSYM=%d -DQ=0' % (T('{0,1,3,5}' if ops == 2 else '{0,1,5}', '{0,1,2,3,4,5,6}'), T(3, 4)), time=T(40, 900), **kw))
    r.append(U('scan', 'p01.cpp', O + '-DCFGS={1} -DNSYM=%d -DQ=1 -DSIZES=4' % T(2, 3), time=T(30, 600), **kw))
    r.append(U('scandeep', 'p01.cpp', O + '-DCFGS=%s -DNSYM=2 -DQ=1 -DSIZES=2' % T('{2}', '{2,3}'), time=T(40, 600), **kw))
    f, k = T(('4,5,17,49,5,49', '4,5,17,49,3,37'), ('4,5,16,17,48,49,5,17,49,49', '4,5,16,17,48,49,3,12,37,2'))
    r.append(U('fan', 'p01.cpp', O + FAN(f, k, 49) + ' -DCFGS={1} -DFP=1 -DVARY=2 -DQ=3 %s -DNSYM=1' % T('-DORD1', ''), time=T(60, 900), **kw))
    r.append(U('fanscan', 'p01.cpp', O + FAN('4,5,16,17,48,49,5,17,49,49', '4,5,16,17,48,49,3,12,37,2', 49) + ' -DCFGS={2} -DFP=3 -DVARY=8 -DQ=5 %s -DNSYM=1' % T('-DORD1', ''), time=T(30, 600), **kw))
    r.append(U('prefix', 'p01.cpp', O + FAN('2,4', '2,4', 5) + ' -DCFGS={3} -DFP=2 -DVARY=6 -DNSYM=%d -DQ=0' % T(2, 2), time=T(30, 600), **kw))
    r.append(U('prefixscan', 'p01.cpp', O + FAN(T('2', '2,5'), T('2', '2,5'), 5) + ' -DCFGS={2} -DFP=2 -DVARY=6 -DNSYM=1 -DQ=1 -DSIZES=2 %s' % T('-DORD1', ''), time=T(40, 600), **kw))
    return r
@prop('P01', note='bounded: 7 key shapes (1..24 bytes, shared prefixes within and beyond the 8 stored prefix bytes); up to 3 (4) fully symbolic insert/remove operations from empty, or 1 symbolic operation on nodes holding 4..49 children and thinned back across every shrink threshold; symbolic lookups and range scans; every path', assumptions=['keys stored together are prefix-free; a range is [start,end); tids are not 0'])
def p01(t): return p01units(t, '', 2)
def keys(n): return '{' + ','.join(hex(0x101 + 2 * i) for i in range(n)) + '}'
RG = [('r_rem', 1, '0x10101,0x10102,0x10201', '0x10100', 4, '{1,-1}', '-DRHI=0xffffff'), ('r_ins', 1, '0x10101,0x10102,0x10201', '0x10100', 4, '{0,0}', '-DRHI=0xffffff'),
      ('r_ins2', 1, '0x10101,0x10102,0x10201', '0x10100', 6, '{0,0}', '-DRLO=0x10101 -DRHI=0x10103'), ('r_rem2', 1, '0x10101,0x10102,0x10201', '0x10100', 6, '{1,-1}', '-DRLO=0x10101 -DRHI=0x10103'),
      ('r_grow', 1, '0x10101,0x10103,0x10105,0x10107,0x10201', '0x10100', 6, '{0,0}', '-DRLO=0x10102 -DRHI=0x10106'), ('r_rem5', 1, '0x10101,0x10103,0x10105,0x10107,0x10201', '0x10100', 6, '{1,-1}', '-DRLO=0x10102 -DRHI=0x10203'),
      ('r_pfx', 2, '0x1010101,0x1010102,0x1010201', '0x1010100', 6, '{0,0}', '-DRLO=0x1010101 -DRHI=0x1010103'), ('r_pfxrem', 2, '0x1010101,0x1010102,0x1010201', '0x1010100', 6, '{1,-1}', '-DRLO=0x1010101 -DRHI=0x1010103'),
      ('r_long', 4, '0x1010101,0x1010102,0x1010201,0x1020201', '0x1010100', 2, '{1,-1}', '-DRLO=0x1010101 -DRHI=0x1020103'), ('r_longins', 4, '0x1010101,0x1010102,0x1010201,0x1020201', '0x1010100', 2, '{0,0}', '-DRLO=0x1010101 -DRHI=0x1020103')]
def artconc(t, d, upd):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    def s(nm, cfg, prek, base, vary, x, pre=None, hard=0, deep=0):
        p = T(1, 2) if pre is None else pre
        if deep and q: return
        r.append(U(nm, 'p02.cpp', '%s -DGC=0 %s -DCFG=%d -DPREK=%s -DBASE=%s -DVARY=%d %s -DPRE=%d' % (d, '' if '-DRHI' in x else '-DRLO=0 -DRHI=0xffff', cfg, prek, base, vary, x, p), thr=True, opts=FS, time=T(25, 420), cflags=['-fno-access-control']))
    A = lambda a, b, c=None: '-DT0={%s} -DT1={%s}' % (a, b) + (' -DT2={%s}' % c if c else '')
    k4 = keys(4); s('grow4', 0, k4, '0x100', 2, A('{0,0}', '{0,1}')); s('grow4rem', 0, k4, '0x100', 2, A('{0,0}', '{1,-1}'))
    k2 = '{0x101,0x201}'; s('shrinkget', 0, k2, '0x100', 2, A('{1,-1}', '{2,-1}'), T(2, 3)); s('split', 0, k2, '0x100', 2, A('{0,0}', '{0,1}'), T(1, 2)); s('again', 0, k2, '0x100', 2, A('{1,2},{0,2}', '{2,2}'), T(2, 3))
    m = '{0x10101,0x10102,0x10201}'; s('merge2', 1, m, '0x10100', 6, A('{1,-1}', '{1,-1}')); s('mergeins', 1, m, '0x10100', 6, A('{1,-1}', '{0,0}')); s('mergeget', 1, m, '0x10100', 6, A('{1,-1}', '{0,0},{2,0}'))
    s('three', 1, m, '0x10100', 4, A('{1,2}', '{1,3}', '{2,4}')); s('three2', 1, m, '0x10100', 4, A('{1,4}', '{0,0}', '{2,0}'))
    m2 = '{0x1010101,0x1010102,0x1010201}'; m3 = '{0x1010101,0x1010102}'
    s('pfxmerge', 2, m2, '0x1010100', 6, A('{1,-1}', '{0,0}')); s('longmerge', 4, m2, '0x1010100', 2, A('{1,-1}', '{0,0}')); s('longget', 4, m2, '0x1010100', 2, A('{1,4}', '{1,-1},{2,-1}')); s('longins', 4, m3, '0x1010100', 2, A('{0,0}', '{0,1}'), T(1, 2)); s('longins2', 4, m3, '0x1010100', 2, A('{0,0}', '{2,1}'), T(1, 2))
    s('shrink16', 0, keys(5), '0x100', 2, A('{1,2}', '{0,0}') + ' -DDROP=2'); s('shrink16b', 0, keys(5), '0x100', 2, A('{1,2}', '{1,-1}') + ' -DDROP=2'); s('shrink16c', 0, keys(5), '0x100', 2, A('{1,2}', '{2,0}') + ' -DDROP=2', T(1, 2))
    v = ' -DVMASK=3'; s('grow16', 0, keys(16), '0x100', 2, A('{0,0}', '{0,1}') + v, 1); s('grow16get', 0, keys(16), '0x100', 2, A('{0,0}', '{2,9}') + v, T(1, 2)); s('grow48get', 0, keys(48), '0x100', 2, A('{0,0}', '{2,9}') + v, 1); s('grow48rem', 0, keys(48), '0x100', 2, A('{0,0}', '{1,2}') + v, 1)
    s('shrink48', 0, keys(17), '0x100', 2, A('{1,2}', '{1,3}') + ' -DDROP=5', T(1, 2)); s('shrink256', 0, keys(49), '0x100', 2, A('{1,2}', '{2,0}') + ' -DDROP=12' + v, 1); s('shrink48get', 0, keys(17), '0x100', 2, A('{1,2}', '{2,0}') + ' -DDROP=5' + v, 1)
    if upd:
        s('updins', 1, m, '0x10100', 6, A('{4,2}', '{0,0}')); s('updrem', 1, m, '0x10100', 6, A('{4,2}', '{1,-1}')); s('updupd', 1, m, '0x10100', 6, A('{4,2}', '{4,-1}')); s('updgrow', 0, k4, '0x100', 2, A('{0,0}', '{4,-1}'), 1); s('updget', 0, k4, '0x100', 2, A('{4,2},{4,2}', '{2,-1},{2,-1}'), T(1, 2))
    for nm, cfg, pk, b, vy, a, x in RG: s(nm, cfg, '{%s}' % pk, b, vy, A(a, '{3,0}') + ' ' + x + ('' if 'RLO' in x else ' -DRLO=0'))
    s('r_16', 0, keys(16), '0x100', 2, A('{0,0}', '{3,0}') + v, 1)
    return r
@prop('P02', note='bounded: 2-3 threads x 1-2 operations (insert, remove, lookup, range scan) on trees of 2..49 keys placed right before every node growth, shrink, split and merge, stored prefixes shorter and longer than 8 bytes, symbolic key bytes; memory reclaimed at once (collection threshold 0) and every access checked; every interleaving with at most 1 (2) preemptions under sequential consistency', assumptions=['keys stored together are prefix-free; tids are not 0; a scan may or may not see keys changed while it runs, but sees every key that stays, in order and once'])
def p02(t): return artconc(t, '', 0)
@prop('P03', note='bounded: as P01 with insert, remove and update on the OptiQL tree (15 stored prefix bytes), open and closed scans', assumptions=['keys stored together are prefix-free; a range is [start,end); tids are not 0'])
def p03(t):
    r = p01units(t, '-DOPTIQL=1 -DOMCS_LOCK -DIS_CONTEXTFUL', 3)
    return r + [U('open', 'p01.cpp', '-DOPTIQL=1 -DOMCS_LOCK -DIS_CONTEXTFUL -DOPS=3 -DCFGS={1,2} -DNSYM=2 -DQ=4 -DSIZES=4', time=40, opts=FS, cflags=['-fno-access-control'])]
@prop('P27', note='bounded: as P02 (2-3 threads x 1-2 operations on trees of 2..49 keys right before every growth, shrink, split and merge, stored prefixes up to and beyond 15 bytes, updates included); every interleaving with at most 1 (2) preemptions under sequential consistency; unlinked nodes stay allocated, as the repository leaves reclamation to its user', assumptions=['keys stored together are prefix-free; tids are not 0; a scan may or may not see keys changed while it runs, but sees every key that stays, in order and once'])
def p27(t): return artconc(t, '-DOPTIQL=1 -DOMCS_LOCK -DIS_CONTEXTFUL', 1)
@prop('P04', note='bounded: 2-3 threads x 1-3 latch operations (lock, upgrade, optimistic read, read callback, split lock), queue-node pointers and queue-node numbers, opportunistic read, fair and central reader-writer latches, std latch; symbolic start version and data; every interleaving with at most 2 (3) preemptions under sequential consistency', assumptions=['versions stay below 2^40', 'opportunistic read is used with queue-node numbers (OMCS_OFFSET), as the header demands; the pointer form is checked within one hand-over only', 'queue and central entry points are not mixed on one latch'])
def p04(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    def s(nm, d, a, b, c=None, p=None): r.append(U(nm, 'p04.cpp', d + ' -DT0={%s} -DT1={%s}' % (a, b) + (' -DT2={%s}' % c if c else '') + ' -DPRE=%d' % (p or T(2, 3)), thr=True, opts=FS, time=T(20, 300), cflags=['-fno-access-control']))
    o = '-DLK=0'; of = o + ' -DOMCS_OFFSET'; op = of + ' -DOMCS_OP_READ'; pp = o + ' -DOMCS_OP_READ'
    s('omcs2', o, '0,0', '0,0', p=T(3, 5)); s('omcsread', o, '0,0', '1,1', p=T(3, 5)); s('omcs3', o, '0', '0', '1,6'); s('omcs3w', o, '0', '0', '0'); s('omcsup', o, '2', '0,2', p=T(3, 5)); s('omcsup3', o, '2', '2', '0'); s('central', o, '3,3', '3,1', p=T(3, 4)); s('centralup', o, '7,7', '3,7', p=T(3, 4))
    s('off', of, '0,0', '0,2', p=T(3, 5)); s('off3', of, '0', '0', '2')
    s('op2', op, '0,0', '0,0', p=T(3, 4)); s('op3', op, '0', '0', '1'); s('op3b', op, '0,0', '0', '1'); s('opup', op, '0', '0', '2'); s('opcb', op, '4', '4', '1'); s('opcb2', op + ' -DOMCS_OP_READ_NEW_API_CALLBACK_BASELINE', '4', '4', '1'); s('opsplit', op, '8', '8', '1'); s('opread', op, '0', '0', '1,1'); s('ptr3', pp, '0', '0', '1'); s('ptrcb', pp, '4', '4', '1')
    m = '-DLK=1'; s('mcs2', m, '0,0', '0,0', p=T(3, 5)); s('mcs3', m, '0', '0', '0'); s('mcstry', m, '0', '5', '0')
    w = '-DLK=2 -DQUEUE -DMCSRW_LOCK_ONLY'; s('rw2', w, '0,0', '1,1', p=T(3, 4)); s('rw3', w, '0', '1', '1'); s('rw3w', w, '0', '1', '0'); s('rwmix', w + ' -DOMCS_OFFSET', '1,0', '1', '0', p=T(1, 2)); s('rwread', w, '1,1', '1,1', p=T(3, 4)); s('rwrr', w, '1', '1', '1')
    for nm, f in (('wp', '-DRWLOCK_WRITER_PREFERENCE'), ('rp', '-DRWLOCK_READER_PREFERENCE')): s(nm + '2', '-DLK=2 ' + f, '3,3', '3') if 0 else s(nm + '2', '-DLK=2 -DMCSRW_LOCK_CENTRALIZED ' + f, '3,1', '1,0'); s(nm + '3', '-DLK=2 -DMCSRW_LOCK_CENTRALIZED ' + f, '3', '1', '0', p=T(1, 2))
    s('std', '-DLK=3', '0', '1', '0', p=T(3, 4))
    return r

MT = dict(incs=['MassTree'], cflags=['-include', 'MassTree/config.h', '-fno-access-control'], srcs=['MassTree/string.cc', 'MassTree/str.cc', 'MassTree/straccum.cc', 'MassTree/compiler.cc'], opts=FS, shared=True)
@prop('P16', note='bounded: order words of width 3, 7, 10 and 15 with arbitrary symbolic permutation, every size, position and operation; slices of 4 and 8 bytes and keys up to 19 bytes with symbolic bytes; string bags (1- and 2-byte offsets) with up to 3 (4) assignments of up to 9 lengths and 5 capacities up to the maximum; in-node search over up to 5 (7) sorted symbolic keys; circular numbers, small vector and bit helpers for every argument', assumptions=['documented preconditions hold: positions within range, bytes around a string readable for the sloppy forms'])
def p16(t):
    q = t == 'quick'; T = lambda a, b: a if q else b
    r = [U('perm%d' % w, 'p16.cpp', '-DPART=0 -DKW=%d' % w, time=T(40, 300), **MT) for w in (3, 7, 10, 15)]
    r += [U('slice%s' % i, 'p16.cpp', '-DPART=1 -DIK=%s -DLMAX=%d' % (i, T(11, 14)), time=T(30, 300), **MT) for i in ('u64', 'u32')]
    r += [U('bag8', 'p16.cpp', '-DPART=2 -DBT=u8 -DNS=3 -DCAPS={80,255,256} -DLENS={0,1,5,8,9,13,232,234,239}', time=T(30, 300), **MT), U('bag16', 'p16.cpp', '-DPART=2 -DBT=u16 -DNS=%d -DCAPS={80,256,400} -DLENS={0,1,5,8,9,13,39,232,256}' % T(3, 4), time=T(30, 300), **MT)]
    r += [U('search', 'p16.cpp', '-DPART=3 -DNMAX=%d' % T(5, 7), time=T(30, 300), **MT), U('vec', 'p16.cpp', '-DPART=4 -DNS=%d' % T(3, 4), time=T(30, 300), **MT), U('bits', 'p16.cpp', '-DPART=5', time=T(30, 300), **MT)]
    return r

JS = dict(MT, srcs=MT['srcs'] + ['MassTree/json.cc'], cflags=MT['cflags'] + ['-include', 'harness/shim/fmt_shim.h'])
@prop('P17', note='bounded: texts of up to 8 positions of which up to 5 (6) are arbitrary symbolic bytes inside string, escape, number, word, array and object frames, given whole and cut at every point; values up to nesting depth 2 with strings of up to 4 symbolic bytes and integers of every digit count; up to 2 (3) edits on one of two copies', assumptions=['strings are well-formed UTF-8 without NUL; doubles are carried opaquely (the C library formats and reads them); not more than one blank after the text'])
def p17(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    for ts, c in ((0, 1), (1, 1), (2, 1), (3, 1), (4, 2)) + T((), ((5, 1), (6, 1), (3, 2), (2, 2), (1, 2), (0, 2))): r.append(U('text%d%d' % (ts, c), 'p17.cpp', '-DMODE=0 -DTSET=%d -DCUT=%d' % (ts, c), time=T(40, 600), **JS))
    for nm, d in (('flat', '-DSLENS={0,1,3,4} -DWIDTH=1 -DDEPTH=0 -DIMAX=%d -DKINDS={0,1,2,3,4,5}' % T(1200, 70000)), ('nest', '-DSLENS={0,1} -DWIDTH=1 -DDEPTH=2 -DIMAX=2 -DKINDS={1,4,6,7}'), ('wide', '-DSLENS=%s -DWIDTH=2 -DDEPTH=1 -DIMAX=2 -DKINDS=%s' % (T("{0,1}", "{1}"), T("{4}", "{0,1,4,5}")))): r.append(U(nm, 'p17.cpp', '-DMODE=1 ' + d, time=T(15, 600), **JS))
    for i, d in enumerate(T(('-DNS=1 -DKN=5 -DNK=4', '-DNS=2 -DKN=5 -DNK=4'), ('-DNS=2 -DKN=9 -DNK=7', '-DNS=3 -DKN=3 -DNK=4'))): r.append(U('edit%d' % i, 'p17.cpp', '-DMODE=2 ' + d, time=T(30, 600), **JS))
    return r + [U('arith', 'p17.cpp', '-DMODE=3', time=30, **JS)]

MP = dict(JS, srcs=JS['srcs'] + ['MassTree/msgpack.cc'])
@prop('P18', note='bounded: values up to nesting depth 2 with strings at every length class boundary (0..65536 bytes), integers over the whole symbolic range and containers of up to 16 entries; byte streams of up to 10 positions with arbitrary symbolic head and payload bytes, whole and cut at every point; typed parser over vectors of up to 2 elements', assumptions=['strings are well-formed UTF-8 without NUL; a header announces at most 4 elements more than arrive (allocation is proportional to it)'])
def p18(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    for ts, c in T(((0, 1), (1, 1), (2, 2), (3, 2), (4, 2)), ((0, 2), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2))): r.append(U('bytes%d' % ts, 'p18.cpp', '-DMODE=1 -DTSET=%d -DCUT=%d' % (ts, c), time=T(40, 600), **MP))
    for nm, d in (('sizes', '-DCUT=2 -DDEPTH=1 -DKINDS={2,3,5} -DSLENS={0,1,31,32} -DSIZES={1,2,15,16}'), ('long', '-DCUT=1 -DDEPTH=0 -DKINDS={0,1,2,3,4,5} -DSLENS={255,256,65535,65536} -DSIZES={0}')) + T((), (('nest', '-DCUT=2 -DDEPTH=2 -DKINDS={2,5,6,7} -DSLENS={2} -DSIZES={1,2}'),)): r.append(U(nm, 'p18.cpp', '-DMODE=0 ' + d, time=T(30, 600), **MP))
    return r + [U('typed', 'p18.cpp', '-DMODE=2 -DNV=%d' % T(1, 2), time=T(30, 300), **MP)]

MTK = dict(MT, srcs=MT['srcs'] + ['MassTree/kvthread.cc'], cflags=MT['cflags'] + ['-DENABLE_ASSERTIONS=1', '-DNOSUPERPAGE=1'])
@prop('P14', note='bounded: keys of 0 to 60 bytes sharing a template with up to 3 arbitrary symbolic bytes (slice borders, layers up to 3 deep, equal slices of every length, zero bytes, stored and external suffixes); node widths 3, 7, 11 and 15; up to 40 stored and 20 removed entries followed by 1 to 4 arbitrary operations, collection at any point, then all gets and forward and reverse scans from an arbitrary key with either start rule', assumptions=['a key can be read in whole words around its bytes (Masstree compares keys sloppily)', 'at most leaf-width - 1 keys share one 8-byte slice in a node (true of the shipped width)'])
def p14(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    def s(nm, vp, lens, n, ops='{0,1}', pre='', scan=True, lw=3, **kw): r.append(U(nm, 'p14.cpp', '-DVP={%s} -DLENS={%s} -DOPS=%s -DNOPS=%d -DLWID=%d %s%s' % (vp, lens, ops, n, lw, pre, '' if scan else ' -DNOSCAN'), time=T(30, 600), **MTK))
    seq = lambda n, d, l, st=16: '-DPRESEQ=%d -DNDEL=%d -DPRELEN=%d -DSTEP=%d' % (n, d, l, st); lst = lambda ks, d: '-DPREK={%s} -DNDEL=%d' % (','.join('{%d,%d}' % k for k in ks), d)
    s('ops', '0', '1', T(3, 4), '{0,1,2}'); s('slices', '0,7,8', '0,7,8,9,17', 2, '{0,1,3}'); s('layers', '0,8', '8,9,17', T(3, 3), scan=not q); s('onlyins', '0', '1', T(4, 5), '{0}', scan=not q)
    s('fill', '1', '2', 1, pre=seq(-12, -12, 2), scan=False); s('fill2', '1', '2', 2, pre=seq(9, T(0, -9), 2), scan=False); s('scanseq', '1', '2', 0, pre=seq(-12, -3, 2)); s('deep', '0,1', '2', T(1, 2), pre=seq(40, 20, 2), scan=False); s('wide', '1', '2', 1, pre=seq(T(18, -34), T(0, -18), 2, 7), scan=False, lw=15)
    s('sub', '8', '8,9', T(1, 2), pre=seq(8, -8, 9), scan=False); s('subscan', '8', '8,9', 0, pre=seq(T(8, 12), T(-8, -12), 9)); s('subwide', '8', '9', 1, pre=seq(15, 0, 9), scan=False, lw=15)
    s('deepmid', '1', '2', 1, '{0}' if q else '{0,1}', seq(T(26, 40), T(-7, -12), 2, T(9, 6)) + ' -DDELMID=%d -DORDS={0}' % T(24, 38), scan=False)
    s('deeprun', '1', '2', 1, '{0}', seq(42, T(18, -20), 2, 6) + ' -DDELMID=26 -DORDS=%s' % T('{1}', '{0,1,2}'), scan=False)
    s('ones', '0,16', '8,16,17', 1, pre='-DTB(i)=255 ' + '-DPREK={{17,0xff10},{17,0xff40},{24,0xffff},{8,0xff},{16,0xff},{40,0xffff},{41,0xffff},{16,0x33},{24,0x3320}} -DNDEL=3')
    z = [(i, 0) for i in range(11)]; s('zeros', '0,1', '0,1,2,8,9,16', 2, pre='-DTB(i)=0 ' + lst(z, T(1, 11)), scan=False, lw=11); s('zeroscan', '0,1', '1,8,9', T(0, 1), pre='-DTB(i)=0 ' + lst(z + [(1, 9), (2, 9)], 11), lw=11)
    s('suffix', '0,40', '20,41,60', T(1, 2), pre=lst([(50, 0x1000), (50, 0x3000), (50, 0x7000), (60, 0x5000), (60, 0x9000), (60, 0x100)], 2), scan=False, lw=7)
    ls = [(17, 0x110), (17, 0x120), (17, 0x130), (17, 0x140), (24, 0x120), (8, 1), (16, 1)]; s('layer2', '0,16', '16,17,25', 2, '{0,1,3}', pre=lst(ls, 7), scan=False); s('layer2scan', '0,16', '16,17', 1, '{1}' if q else '{0,1}', pre=lst(ls, 7))
    if not q: s('layer3', '0,8,16', '8,16,17,25', 2, '{0,1,3}', pre=lst([(25, 0x11010), (25, 0x11020), (17, 0x11010), (9, 0x120), (24, 0x12000)], 5))
    pk = '-DPREK={{1,1},{1,3},{1,5},{2,0x700},{2,0x903},{2,0x905},{1,11},{1,13},{1,15},{1,17},{1,19},{1,21},{1,31},{1,32},{1,33},{1,34},{1,35},{1,36}}'
    for w in (1, 2): r.append(U('wrapper%d' % w, 'p14.cpp', '-DWRAP=%d -DVP={0,8} -DLENS={0,8,9,17} -DNOPS=2' % w, time=T(30, 300), **MTK)); r.append(U('wrapfull%d' % w, 'p14.cpp', '-DWRAP=%d -DVP={0,1} -DLENS={1,2} -DNOPS=%d %s' % (w, T(1, 2), pk), time=T(30, 600), **MTK))
    return r

@prop('P15', note='bounded: two threads of one to five operations (three in the thorough tier), at most 2 preemptions at any shared access (1 on the widest units; 2-3 thorough), sequentially consistent memory; nodes of width 3 (and 15 in the thorough tier) around a split of a leaf, of the root and of an inner node, creation and collapse of a layer, emptied leaves, slots used again, suffix bags that grow, with epoch collection running; key choices and, in the arbitrary-key units, every key byte are explored; scans must be ordered, hold only values that were put, and miss no key that stays', assumptions=['the machine is sequentially consistent: weaker orderings of the fences are not explored', 'nodes are allocated one by one so that use after free is visible'])
def p15(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    def u(nm, pre, ex, progs, p, vp='0', d=''): r.append(U(nm, 'p15.cpp', '-DVP={%s} -DPREK={%s} -DEXTRA={%s} -DPROGS={%s} -DPRE=%d %s' % (vp, ','.join('{%d,%d}' % k for k in pre), ','.join('{%d,%d}' % k for k in ex), ','.join('{%s}' % ','.join('"%s"' % o for o in th.split()) for th in progs), p, d), thr=True, time=T(40, 600), **MTK))
    P3 = [(1, 16), (1, 32), (1, 48)]; E4 = [(1, 8), (1, 24), (1, 40), (1, 56)]; PL = [(9, 0x1010), (9, 0x2010), (8, 0x30)]; EL = [(9, 0x1020), (9, 0x1030), (9, 0x2020), (8, 0x10)]; PG = [(9, 0x1010), (9, 0x1020), (9, 0x2010)]
    P7 = [(1, 16 * i) for i in range(1, 8)]; E7 = [(1, 40), (1, 56), (1, 72), (1, 8)]; P9 = [(1, 16 * i) for i in range(1, 14)]; E9 = [(1, 40), (1, 200), (1, 216), (1, 120)]
    u('splitget', P3, E4, ('p0123', T('gB0', 'gABC0123') + T('', ' gC1')), 2); u('splitarb', P3, E4, ('px', 'gB gx'), 1); u('splitput', P3, E4, ('p013', 'p02B'), 2); u('putarb', P3, E4, ('px', 'py gx'), 1)
    u('remput', P3, E4, ('rBC t', 'p1B gB'), 2); u('reuse', P3, E4, ('rB p1 t', 'gB1 gB1'), 2); u('remrem', P3, E4, ('rB t', 'rAB p1'), 2); u('scan', P3, E4, ('p0123', 'sA1 b3'), 2)
    u('layer', PL, EL, ('p023', 'gA0'), 2, '0,8'); u('layerput', PL, EL, ('p0', 'p13A'), 2, '0,8'); u('layerrem', PL, EL, ('p0', 'rAB'), 2, '0,8'); u('layerscan', PL, EL, ('p01', 'sA bC'), 2, '0,8')
    u('layergc', PG, EL, ('rA rB t t t', 'p1AB gAB1'), T(1, 2), '0,8'); u('layergc2', PG, EL, ('rA t t t', 'p01 gA1'), 2, '0,8', '-DPREDEL=1 -DPREDFROM=1')
    LD = '-DPREDEL=2 -DPREDFROM=3'; u('leafdel', P7, E7, ('rF', 'p023 gCG0'), T(1, 2), d=LD); u('leafscan', P7, E7, ('rF p2', 'sA bG'), 2, d=LD); u('slot0', P3, E4 + [(1, 60)], ('p2 r2 p3 p4', 'gC'), T(1, 2)); u('reuse0', P3, E4, ('rAB p1 p2', 'gAB'), 1, d='-DPREDEL=1 -DPREDFROM=2')
    u('innergc', [(9, 0x1000 + 16 * i) for i in range(1, 5)] + [(9, 0x2010)], EL, ('rA rB t t t', 'p1AB gAB1'), T(1, 2), '0,8', '-DPREDEL=2 -DPREDFROM=2'); u('inner', P9, E9, ('p123', 'gAM p12'), T(1, 2)); u('innerscan', P9, E9, ('p12', 'sL bM'), 2); u('innerdel', P9, E9, ('rK rL rM t t', 'p12 gL'), 1)
    u('suffix', [(20, 0x1010), (20, 0x2010)], [(30, 0x3020), (20, 0x1030), (24, 0x2020), (8, 0x10)], ('p0123', 'gA0 gB'), 2, '0,12'); u('empty', [(1, 16)], E4, ('rA p0', 'p01 gA'), 2)
    if not q:
        u('leafdel0', P7, E7, ('rC rD', 'p02 gE01'), 2); u('leafscan0', P7, E7, ('rC rD t t', 'sA bG'), 2)
        u('splitput3', P3, E4, ('p0', 'p1', 'gB p2'), 2); u('rem3', P3, E4, ('rB t', 'p1', 'gB gB'), 2); u('layer3', PL, EL, ('p0', 'p1', 'rA'), 2, '0,8'); u('splitget3', P3, E4, ('p013', 'gB gC'), 3); u('reuse3', P3, E4, ('rB p1', 'gB gB'), 3)
        u('wide', [(1, 8 * i) for i in range(1, 16)], [(1, 4), (1, 60), (1, 124), (1, 44)], ('p0123', 'gACHO p1'), 2, d='-DLWID=15'); u('remputarb', P3, E4, ('rx t', 'py gx'), 2)
    return r

WH = dict(srcs=['wormhole/kv.c', 'wormhole/lib.c'], cflags=['-include', 'wh_shim.h'], opts=FS, shared=True)
@prop('P22', note='bounded: keys of 0-17 (25) arbitrary bytes, values of 0-128 bytes, every 32- and 64-bit integer for variable-length integers, bit functions and hexadecimal; decimal text and rounding to multiples around boundary values; sorting of up to 4 (5) records; token strings of up to 5 (6) characters and 30-66 tokens; the one-byte CRC-32C instruction step is taken as the standard polynomial division')
def p22(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []
    for nm, m, d in (('vi128', 0, ''), ('bits', 1, T('', '-DALLROT=1')), ('text', 2, ''), ('cmp', 3, '-DLENS={%s}' % T('0,1,3,8,9', '0,1,2,4,5,8,9,12')), ('cmplong', 3, '-DLENS={%s}' % T('1,7,15,17', '7,15,16,17,21,25')), ('rec', 4, '-DLENS={%s} -DVLENS={%s}' % T(('0,1,3,8,9', '0,2,127,128'), ('0,1,2,3,4,5,8,9,16,17,127,128', '0,1,2,127,128,300'))), ('crc', 5, ''), ('sort', 6, '-DNK=%d -DLONG=%d' % T((4, 1), (5, 1))), ('tokens', 7, '-DNC=%d' % T(5, 6)), ('maps', 8, '')):
        r.append(U(nm, 'p22.cpp', '-DMODE=%d %s' % (m, d), time=T(30, 300), **WH))
    return r

WHI = dict(srcs=['wormhole/kv.c', 'wormhole/lib.c', 'wormhole/wh.c'], cflags=['-include', 'wh_shim.h', '-DHEAPCHECKING', '-DWH_SMALL_NODES'], opts=FS, shared=True)
WHW = dict(WHI, cflags=WHI['cflags'] + ['-DCRCWEAK'])
@prop('P20', note='bounded: four interfaces (unsafe, safe, quiescent-reference on one reference, flat buffers) on leaves of 8 records and a table of 4 buckets (WH_SMALL_NODES); four sets of 24-40 keys chosen for prefixes, zero and 0xff bytes and long shared prefixes, 10-40 of them inserted in three orders, optionally thinned, then 1-2 (3) operations with any keys of the set and arbitrary values, among them every range deletion, merge outcome and iterator walk; a key of 1-2 (3) unknown bytes under a transparent checksum (any checksum must do); then every key, or the whole order, or a walk from any key, is compared', par=4)
def p20(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; tm = T(40, 600)
    def u(nm, f, d, w=WHI): r.append(U(nm, 'p20.cpp', '-DFLAV=%d %s' % (f, d), time=tm, **w))
    for f in range(4):
        u('one%d' % f, f, '-DSET=0 -DOPS=6 -DNOPS=1 -DORDERS=3')
        u('two%d' % f, f, '-DSET=%d -DOPS=%d -DNOPS=2 -DORDERS=%d -DPRE=%d -DALLCHECK=1' % (f, T(2, 3), T(1, 3), (17, 22, 24, 33)[f]))
        if f < 2: u('all%d' % f, f, '-DSET=3 -DOPS=%d -DNOPS=1 -DORDERS=%d -DPRE=38 -DALLCHECK=1' % (6, T(2, 3))); u('thin%d' % f, f, '-DSET=3 -DOPS=3 -DNOPS=1 -DORDERS=3 -DPRE=40 -DTHIN=4 -DALLCHECK=1')
    for f, st in ((0, 1), (1, 1), (2, 2), (3, 2)): u('long%d' % f, f, '-DSET=%d -DOPS=6 -DNOPS=1 -DORDERS=%d -DPRE=20' % (st, T(1, 3)), WHW if f == 1 else WHI)
    for f in T((1,), (0, 1, 2)): u('free%d' % f, f, '-DSET=0 -DFREE=%s -DOPS=%d -DNOPS=%d -DORDERS=1 -DPRE=9' % (T('{1}', '{1,2,3}'), T(2, 5), T(1, 2)), WHW)
    if not q:
        for f in range(4): u('three%d' % f, f, '-DSET=%d -DOPS=2 -DNOPS=3 -DORDERS=1 -DPRE=18 -DALLCHECK=1' % (f % 3))
    return r

WHT = dict(srcs=WHI['srcs'], cflags=WHI['cflags'], thr=True, shared=True)
@prop('P21', note='bounded: reader-writer lock with every pair (thorough: triple) of its eleven ways to acquire and hand over, spinlock and mutex with 2-3 threads, at most 2 preemptions; quiescent-state waiting with one writer doing one or two waits and one reader (2 preemptions) or two (1 preemption; thorough 2) that park, resume, register, update or leave; the map on leaves of 8 records (WH_SMALL_NODES) at states just before a split or a merge, 2 threads (thorough 3) with one or two operations each out of put, get, delete, range delete, in-place update, merge and iterator walk on chosen keys, through the safe and the reference interface, at most 1 preemption (thorough: 2 on the narrow cases) besides switches at blocking points; sequentially consistent memory', par=4)
def p21(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; tm = T(30, 600)
    def u(nm, d): r.append(U(nm, 'p21.cpp', d, time=tm, **WHT))
    u('rwlock2', '-DMODE=0 -DNTH=2 -DREP=%d -DPRE=%d' % T((1, 2), (2, 2))); u('rwlock3', '-DMODE=0 -DNTH=3 -DREP=1 -DPRE=%d' % T(1, 2)); u('locks', '-DMODE=1 -DNTH=%d -DREP=2 -DPRE=%d' % (T(2, 3), T(2, 3)))
    for th, nw, pr in T(((1, 2, 2), (2, 1, 1)), ((1, 2, 3), (2, 1, 2), (2, 2, 1), (3, 1, 1))): u('qsbr%d%d' % (th, nw), '-DMODE=2 -DNTH=%d -DNW=%d -DPRE=%d' % (th, nw, pr))
    full = '-DPRES={8} -DSKIP=0x92492'; low = '-DPRES={12} -DSKIP=0x92492 -DDELS={0,2,3,5,12,14,15}'
    for f in (1, 2):
        m = '-DMODE=3 -DFLAV=%d ' % f
        u('split%d' % f, m + full + ' -DKA={1,9,17} -DOPS0={0} -DOPS1={0,1,2,6} -DN0=1 -DN1=1 -DPRE=1'); u('splitx%d' % f, m + full + ' -DKA={1,9,17} -DOPS0={%s} -DOPS1={3,4,5} -DN0=1 -DN1=1 -DPRE=1' % ('0' if f == 1 else '6'))
        u('merge%d' % f, m + low + ' -DKA={6,9,11} -DOPS0={%s} -DOPS1={%s} -DN0=1 -DN1=1 -DPRE=1' % (T('2', '2,4'), T('0,1,2,3', '0,1,2,3,4,5')))
        u('pair%d' % f, m + full + ' -DKA={9,17} -DOPS0={0,2} -DOPS1={%s} -DN0=%d -DN1=%d -DPRE=1' % (T('0,1,2', '0,1,2,3,6'), T(1, 2), 2))
    if not q:
        u('delr1', '-DMODE=3 -DFLAV=1 ' + low + ' -DKA={2,6,9,11} -DOPS0={4} -DOPS1={0,1,3,4} -DN0=1 -DN1=1 -DPRE=1'); u('three1', '-DMODE=3 -DFLAV=1 -DNTH=3 ' + full + ' -DKA={1,17} -DOPS0={0} -DOPS1={1,2} -DN0=1 -DN1=1 -DPRE=1'); u('deep2', '-DMODE=3 -DFLAV=2 ' + full + ' -DKA={9,17} -DOPS0={0} -DOPS1={1} -DN0=1 -DN1=1 -DPRE=2')
    return r

HOT = dict(adapt=('adapt_hot', 'HOT/include', ['-Wno-c++11-narrowing', '-include', 'mmx_shim.h']), cflags=['-fno-access-control'])
@prop('P11', note='bounded: tries of 0 to 33 (70) keys of six shapes (dense, chains, scattered bits, clusters, prefixes of one another; 64-bit, 32-bit, self-keyed and string keys; three insertion orders in the thorough tier), then one insert or upsert (two on the wrapper in the thorough tier), or a bound search, scan or find, with a key that differs from a stored one in any one byte (strings: also cut short or extended), or with any 64-bit key on 2 (1-4) entries; then every lookup and the whole order', par=4, assumptions=['values that are their own key have their top bit clear (the trie keeps that bit for itself)', 'strings are at most 254 characters; keys differ before that', 'one thread'])
def p11(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; tm = T(40, 600)
    def u(nm, d, z=q): r.append(U(nm, 'p11.cpp', d, time=tm, opts=FS + (['--uninit-zero'] if z else []), **HOT))
    A = '-DSHAPES={0,1,2,3,4,5} -DORDERS=%d -DNEAR=1 %s' % T((1, '-DNEARS=3'), (3, ''))
    for k in T((0, 2), (0, 1, 2, 5)): u('op%d' % k, '-DKT=%d %s -DSIZES={%s} -DOPS={%s} -DNOPS=1 -DWALK=0' % (k, A, T('33' if k else '1,2,9,33', '0,1,2,3,9,17,32,33,34'), T('%d' % (k == 0), '0,1,2')))
    u('raw', '-DKT=0 -DSHAPES={%s} -DORDERS=1 -DNEAR=1 -DNEARS=3 -DSIZES={%s} -DOPS={0,1} -DNOPS=1 -DWALK=0' % T(('2,3', '9'), ('0,1,2,3,4,5', '2,9,33')), False)
    for k in T((1, 2, 5), (0, 1, 2, 5)): u('walk%d' % k, '-DKT=%d %s -DSIZES={%s} -DOPS={0} -DNOPS=0 -DWALK=1' % (k, A, T('0,1,2,17,33', '0,1,2,3,9,17,32,33,34,70')))
    for k in (3, 4): u('wrap%d' % k, '-DKT=%d %s -DSIZES={%s} -DOPS={0,2} -DNOPS=%d -DWALK=0' % (k, A, T('0,1,17', '0,1,2,3,17,33'), T(1, 2)))
    u('deep', '-DKT=0 -DSHAPES={1} -DORDERS=%d -DNEAR=1 %s -DSIZES={63,64} -DOPS={%s} -DNOPS=1 -DWALK=0' % T((1, '-DNEARS=5', '0'), (3, '', '0,1'))); u('wide', '-DKT=2 -DSLEN=40 -DSHAPES={0} -DORDERS=%d -DNEAR=1 -DNEARS=%d -DSIZES={%s} -DOPS={0} -DNOPS=%d -DWALK=0' % T((1, 2, '16,33', 1), (3, 5, '7,8,9,15,16,17,18,33,70', 1)))
    u('free', '-DKT=0 -DNEAR=0 -DSHAPES={3} -DORDERS=1 -DSIZES={%s} -DOPS={0} -DNOPS=1 -DWALK=0' % T('2', '1,2,3,4'))
    return r

@prop('P24', note='bounded: heaps of arity 1 to 4 with up to 4 elements (two with any key) and up to two operations of any kind afterwards; ring buffers, LRU sets and maps, splay trees of 7 keys and simple vectors over every sequence of up to three operations; radix heaps of radix 2, 8, 16 and 64 keys on up to four elements; merges of up to five sequences with every combination of up to four arbitrary keys; sorting networks of every size to 16 with keys from two (every zero-one input) or three values; string sorters on three arbitrary strings or 33 and more of which one or two vary; partitions and selections of up to seven arbitrary keys at every rank',
      assumptions=['Exceptions of the allocator are not modelled.', 'Sizes at which a sorter changes its method are crossed with mostly fixed content.'])
def p24(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; tm = T(40, 500)
    def u(nm, d, **kw): r.append(U(nm, 'p24.cpp', d, time=tm, **dict(STX, **kw)))
    u('heap', '-DMODE=0 -DPRE=4 -DPRESYM=2 -DNOPS=%d' % T(1, 2)); u('heap-hist', '-DMODE=0 -DPRE=3 -DPRESYM=%d -DNOPS=2' % T(0, 1)); u('addressable', '-DMODE=1 -DN=%d -DNSYM=2 -DNOPS=1 -DPICKY=0' % T(4, 5)); u('addressable-hist', '-DMODE=1 -DN=3 -DNSYM=%d -DNOPS=2 -DPICKY=1' % T(0, 1))
    u('ring', '-DMODE=2 -DNOPS=%d' % T(2, 3)); u('lru', '-DMODE=3 -DNOPS=%d' % T(3, 4)); u('splay', '-DMODE=6 -DNPRE=7 -DNOPS=%d' % T(2, 3)); u('vector', '-DMODE=7 -DNOPS=%d' % T(3, 4))
    u('radix', '-DMODE=4 -DNSYM=%d -DNOPS=1 -DFILL=2 -DWHICH={0,1,5,6,7}' % T(1, 2)); u('radix2', '-DMODE=4 -DNSYM=1 -DNOPS=%d -DFILL=2 -DWHICH={2,3,4}' % T(1, 2))
    u('merge', '-DMODE=5 -DKS={0,1,2,3,4,5} -DLENS={{1,1,1,1,1},{2,0,1,1,0},{0,2,2,0,1}} -DSIZES=0'); u('merge-part', '-DMODE=5 -DKS={%s} -DLENS={%s} -DSIZES=1' % T(('2,3,4', '{1,1,1,1,1},{2,0,1,1,0}'), ('1,2,3,4,5', '{1,1,1,1,1},{2,0,1,1,0},{0,2,2,0,1}')))
    u('networks', '-DMODE=8 -DLO=2 -DHI=8 -DKIND0=0 -DKINDN=2'); u('networks-01', '-DMODE=8 -DLO=2 -DHI=16 -DKIND0=2 -DKINDN=3')
    u('strings', '-DMODE=9 -DALGS={0,5,6} -DMEMS={0} -DNSYM=3 -DNS=%d -DLEN=2 -DLETTERS=0' % T(1, 2)); u('strings-many', '-DMODE=9 -DALGS={0,1,2,3,5} -DMEMS={0,%s100000} -DNSYM=%d -DNS=%d -DLEN=2 -DLETTERS=1' % T(('', 1, 34), ('100,3000,', 2, 40))); u('strings-wide', '-DMODE=9 -DALGS={4} -DMEMS={0} -DNSYM=1 -DNS=40 -DLEN=%d -DLETTERS=1' % T(1, 2))
    u('partition', '-DMODE=10 -DLENS={%s}' % T('{2,2,1,0},{3,0,0,0},{2,1,2,1},{1,3,0,0}', '{2,2,1,0},{2,1,2,1},{1,3,0,0},{4,3,0,0},{3,3,1,0},{5,1,1,0},{2,2,2,1}'))
    return r

@prop('P25', note='bounded: every value of every integer type for the bit functions (divisions and powers on bytes), rotations of any word by -3 to 66; codecs on 0-6 fixed bytes followed by up to 2 (3) arbitrary ones, decoders on any 3 (4) bytes, escapes of any 2 (3); digests of messages around the block borders with one arbitrary byte against an independent implementation, and of entirely arbitrary messages in up to three pieces against the whole; SipHash of up to 17 bytes with an arbitrary key or message byte; string functions on subjects of up to 5 (6) arbitrary characters with arguments of up to 2-3; quoting inverse only for nonempty fields that do not begin with the quote, orders ignoring case on ASCII')
def p25(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; tm = T(40, 400); S = lambda *l: ['STX/tlx/tlx/string/%s.cpp' % x for x in l]
    def u(nm, d, srcs=[], **kw): r.append(U(nm, 'p25.cpp', d, srcs=srcs, time=tm, **dict(STX, **kw)))
    u('ints', '-DMODE=1 -DROTASM=1')
    cod = S('base64', 'hexdump', 'escape_uri', 'escape_html', 'bitdump')
    u('base64', '-DMODE=2 -DNB=1 -DND=%d -DNU=2 -DNP_=5 -DWHICH={0,1}' % T(3, 4), cod); u('codecs', '-DMODE=2 -DNB=%d -DND=%d -DNU=%d -DNP_=%d -DWHICH={2,3,4,5,6,7}' % T((2, 3, 2, 5), (2, 4, 3, 7)), cod)
    if not q: u('base64-2', '-DMODE=2 -DNB=2 -DND=3 -DNU=2 -DNP_=5 -DWHICH={0}', cod)
    dig = ['STX/tlx/tlx/digest/%s.cpp' % x for x in ('md5', 'sha1', 'sha256', 'sha512')] + S('hexdump')
    u('digest', '-DMODE=3 -DSYM=1 -DLENS={%s}' % T('0,56,64,112,128', '0,1,55,56,57,63,64,65,111,112,113,119,127,128,129,130'), dig); u('pieces', '-DMODE=3 -DSYM=2 -DLENS={%s}' % T('3,129', '1,56,63,64,65,112,127,128,129,200'), dig)
    u('siphash', '-DMODE=5 -DLEN=%d' % T(17, 33))
    st = S(*'trim split join split_words split_quoted join_quoted contains starts_with ends_with compare_icase equal_icase less_icase to_lower to_upper replace erase_all extract_between contains_word union_words index_of pad word_wrap'.split()); cf = ['-include', 'oss_shim.h']
    u('strings', '-DMODE=4 -DN=%d -DWHICH={0,1,2,3,5,6,8,9,10,12}' % T(5, 6), st, cflags=cf); u('quoted', '-DMODE=4 -DN=3 -DWHICH={4}', st, cflags=cf); u('words', '-DMODE=4 -DN=%d -DWHICH={7,11,13,14}' % T(3, 5), st, cflags=cf)
    return r

@prop('P26', note='bounded: two or three threads of one or two operations each on tries of 0, 3, 32, 33 and 63 keys (an empty root, a single leaf, a full root that splits, leaves of upper nodes that are pushed down, a full path that splits twice), every interleaving with at most 1 or 2 (thorough 2 or 3) preemptions at accesses that conflict; keys from a set of named ones, and one of 256 arbitrary keys; epoch reclamation on its own with a reader, a retiring and a passing thread, 3 preemptions.',
      assumptions=['Sequentially consistent memory.', 'clang runs a copy of the headers adapted at member templates gcc accepts; counterexamples replay against the original headers.', "TBB's per-thread storage is replaced by an array indexed by thread."])
def p26(t):
    q = t == 'quick'; T = lambda a, b: a if q else b; r = []; G = 1 << 32
    def u(nm, scens, tm=40): r.append(U(nm, 'p26.cpp', '-DMODE=0 -DSCENS=' + ','.join('{%d,%d,{%s},{%s},%d,%d}' % (n, sh, ','.join('%dull' % x for x in ex), ','.join('{' + ','.join('"%s"' % o for o in p.split()) + '}' for p in pr.split('/')), pre, hurry) for n, sh, ex, pr, pre, hurry in scens), thr=True, time=T(tm, 1500), opts=FS, **HOT))
    p1, p2 = T(1, 2), T(2, 3); X = (15, 25); Y = (G + 1, 3, 3 * G)
    u('small', [(0, 4, (10, 20), 'i01/u01', p2, 0), (0, 4, (10, 20, 30), 'i01 g01/i012', p2, 0), (1, 4, (20, 11), 'uA0/iA01', p2, 0), (1, 4, (20, 11), 'uA/uA gA', p2, 0), (3, 4, X, 'uAB/uA01', p2, 0), (3, 4, X, 'i01 gA/uAB', p2, 0), (3, 4, X, 'i0/i01/u0A', p1, 0), (3, 4, X, 'i0 i1/g0 g01', p2, 1), (3, 4, X, 'i01 uA/b.A', p2, 1), (3, 4, (15,), 'i?/iAB0', 1, 0)] + T([], [(3, 4, (15,), 'i?/g?', 2, 0), (3, 4, (15,), 'u?/uAB0', 2, 0), (3, 4, X, 'i0 uA/i01 u1/gA g0', 2, 1)]))
    u('big', [(32, 0, Y, 'i01/i02', p1, 0), (32, 0, Y, 'i01/uAB', p1, 0), (32, 0, Y, 'i01/g01Af', p1, 1), (33, 0, (G + 1, G + 4), 'i01/uAg', p2, 0), (33, 0, (G + 1, G + 4), 'i0/i1', p2, 0), (33, 0, Y, 'i0 i1/g01g', p1, 1), (63, 0, (7 << 60, 3), 'i01/i01', p1, 1), (63, 0, (7 << 60, 3), 'i01/g0A', p1, 1), (33, 1, (3, 100), 'i01/uA0', p1, 0), (33, 0, Y, 'i01/bg.', p1, 1), (33, 1, (3, 1 << 20, 9), 'i1 i02/uAB', p1, 0), (64, 0, (3, (1 << 63) + 1), 'i0/i1', p1, 0)] + T([], [(33, 3, (3, 100), 'i01/i01', 2, 0), (63, 2, (3, 100), 'i01/i01 uA', 2, 0), (33, 0, (G + 1, G + 4), 'i0/ug/gg g0', 2, 1)]))
    e = lambda nm, nr, nw, wm, fine, fp, nc, pre: r.append(U(nm, 'p26.cpp', '-DMODE=1 -DNR=%d -DNW=%d -DWMASK=%d -DFINE=%d -DFINEP=%d -DNC=%d -DPRE=%d' % (nr, nw, wm, fine, fp, nc, pre), thr=True, time=T(60, 900), opts=FS, **HOT))
    e('epoch', 1, 8, 4, 4, 0, 2, 3); e('epoch2', 2, 8, 5, 0, 0, 2, T(2, 4))
    if not q: e('epoch3', 2, 9, 7, 4, 1, 2, 3)
    return r
