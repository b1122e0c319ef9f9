"""The 27-point stencil matrix (C14)."""
import re

from contract import REG
import trans01

G3 = [(v, 'int') for v in ('nx', 'ny', 'nz')]
PT = [(v, 'int') for v in ('iz', 'iy', 'ix')]
NB = [(v, 'int') for v in ('jz', 'jy', 'jx')]
GRID = ['1 <= nx', '1 <= ny', '1 <= nz']
IN = ['0 <= iz', 'iz < nz', '0 <= iy', 'iy < ny', '0 <= ix', 'ix < nx']
JN = ['0 <= jz', 'jz < nz', '0 <= jy', 'jy < ny', '0 <= jx', 'jx < nx']

# the row of a grid point
REG.logic('gridrow', G3[:2] + PT, 'int', '(iz * ny + iy) * nx + ix', rec=True)
# first neighbour and number of neighbours along one direction
lo = lambda i: '(if %s >= 1 then %s - 1 else 0)' % (i, i)
deg = lambda i, n: '(if %s >= 1 then (if %s < %s - 1 then 3 else 2) else (if %s < %s - 1 then 2 else 1))' % (i, i, n, i, n)
# the place of the neighbour (jz, jy, jx) among the neighbours of (iz, iy, ix)
REG.logic('spos', G3 + PT + NB, 'int', '((jz - %s) * %s + (jy - %s)) * %s + (jx - %s)' % (lo('iz'), deg('iy', 'ny'), lo('iy'), deg('ix', 'nx'), lo('ix')), rec=True)
REG.logic('scnt', G3 + PT, 'int', '%s * %s * %s' % (deg('iz', 'nz'), deg('iy', 'ny'), deg('ix', 'nx')), rec=True)
near = lambda a='i', b='j': ' && '.join('%s%s - 1 <= %s%s && %s%s <= %s%s + 1' % (a, d, b, d, b, d, a, d) for d in 'zyx')

REG.lemma('row_in', G3 + PT, GRID,
          ['0 <= iz && iz < nz && 0 <= iy && iy < ny && 0 <= ix && ix <= nx ==> 0 <= gridrow(nx, ny, iz, iy, ix) && gridrow(nx, ny, iz, iy, ix) <= nx * ny * nz && '
           '(ix < nx ==> gridrow(nx, ny, iz, iy, ix) < nx * ny * nz) && 0 <= iz * ny && iz * ny <= nx * ny * nz && iz * ny + iy < nx * ny * nz && 0 <= (iz * ny + iy) * nx'], nl='real',
          hints=['when %s do ' % ' && '.join(IN[:4]) + h for h in
                 ('assert 0 <= iz * ny', 'assert (iz + 1) * ny <= nz * ny', 'assert iz * ny + iy + 1 <= nz * ny', 'assert (iz * ny + iy + 1) * nx <= nz * ny * nx',
                  'assert nz * ny <= nz * ny * nx', 'assert 0 <= (iz * ny + iy) * nx')])
BEFORE = '(jz < iz || jz == iz && jy < iy)'
REG.lemma('row_lt', G3 + PT + NB, GRID,
          [' && '.join(IN[:4] + JN[:4]) + ' && jx <= nx && 0 <= ix && ' + BEFORE + ' ==> gridrow(nx, ny, jz, jy, jx) <= gridrow(nx, ny, iz, iy, ix) && '
           '(jx < nx ==> gridrow(nx, ny, jz, jy, jx) < gridrow(nx, ny, iz, iy, ix))',
           'jz == iz && jy == iy ==> gridrow(nx, ny, iz, iy, ix) - gridrow(nx, ny, jz, jy, jx) == ix - jx'], nl='real',
          hints=['when ' + ' && '.join(IN[:4] + JN[:4]) + ' && %s do ' % BEFORE + h for h in
                 ('assert jz < iz ==> (jz + 1) * ny <= iz * ny', 'assert jz * ny + jy + 1 <= iz * ny + iy', 'assert (jz * ny + jy + 1) * nx <= (iz * ny + iy) * nx')])
REG.lemma('prod3', G3, GRID, ['nx * ny <= nx * ny * nz', 'ny * nz <= nx * ny * nz', 'nx <= nx * ny', 'ny <= nx * ny', 'nz <= nx * ny * nz', '1 <= nx * ny * nz'], nl='real',
          hints=['assert nx <= nx * ny', 'assert ny <= nx * ny', 'assert nx * ny <= nx * ny * nz', 'assert nz <= ny * nz', 'assert ny * nz <= nx * ny * nz'])
SH = [(v, 'int') for v in ('sz', 'sy', 'sx')]
SHIFT = ['-1 <= sz', 'sz <= 1', '-1 <= sy', 'sy <= 1', '-1 <= sx', 'sx <= 1']
NBR = ['0 <= iz + sz', 'iz + sz < nz', '0 <= iy + sy', 'iy + sy < ny', '0 <= ix + sx', 'ix + sx < nx']
# what the column of a neighbour is, and that only the point itself has its own row as its column
REG.lemma('col_of', G3 + PT + SH, GRID + IN + SHIFT + NBR,
          ['gridrow(nx, ny, iz + sz, iy + sy, ix + sx) == gridrow(nx, ny, iz, iy, ix) + (sz * ny + sy) * nx + sx',
           '0 <= gridrow(nx, ny, iz, iy, ix) + (sz * ny + sy) * nx', 'gridrow(nx, ny, iz, iy, ix) + (sz * ny + sy) * nx < nx * ny * nz',
           '-(nx * ny * nz) <= (sz * ny + sy) * nx', '(sz * ny + sy) * nx <= nx * ny * nz', '-ny <= sz * ny', 'sz * ny <= ny',
           '(sz * ny + sy) * nx + sx == 0 ==> sz == 0 && sy == 0 && sx == 0'], nl='real')


KN = [(v, 'int') for v in ('kz', 'ky', 'kx')]
win = lambda j: ' && '.join('i%s - 1 <= %s%s && %s%s <= i%s + 1 && 0 <= %s%s && %s%s < n%s' % (d, j, d, j, d, d, j, d, j, d, d) for d in 'zyx')
REG.lemma('spos_inj', G3 + PT + NB + KN, GRID + IN, ['%s && %s && spos(nx, ny, nz, iz, iy, ix, jz, jy, jx) == spos(nx, ny, nz, iz, iy, ix, kz, ky, kx) ==> jz == kz && jy == ky && jx == kx' % (win('j'), win('k'))])
REG.lemma('spos_in', G3 + PT + NB, GRID, [' && '.join(IN) + ' && %s ==> 0 <= spos(nx, ny, nz, iz, iy, ix, jz, jy, jx) && spos(nx, ny, nz, iz, iy, ix, jz, jy, jx) < scnt(nx, ny, nz, iz, iy, ix)' % win('j')])
SP = lambda j: 'spos(nx, ny, nz, iz, iy, ix, %s)' % j
REG.lemma('stencil_ascending', G3 + PT + NB + KN, GRID + IN, ['%s && %s && %s < %s ==> gridrow(nx, ny, jz, jy, jx) < gridrow(nx, ny, kz, ky, kx)' % (win('j'), win('k'), SP('jz, jy, jx'), SP('kz, ky, kx'))],
          hints=['apply row_lt(nx, ny, nz, kz, ky, kx, jz, jy, jx)'])
# the neighbour at place p
CYX = '(%s * %s)' % (deg('iy', 'ny'), deg('ix', 'nx'))
step = lambda p, s: '(if {p} < {s} then 0 else (if {p} < {s} + {s} then 1 else 2))'.format(p=p, s=s)
WZ = step('p', CYX)
P1 = '(p - %s * %s)' % (WZ, CYX)
WY = step(P1, deg('ix', 'nx'))
P2 = '(%s - %s * %s)' % (P1, WY, deg('ix', 'nx'))
REG.lemma('stencil_complete', G3 + PT + [('p', 'int')] + NB, GRID + IN + ['0 <= p', 'p < scnt(nx, ny, nz, iz, iy, ix)', 'jz == %s + %s' % (lo('iz'), WZ), 'jy == %s + %s' % (lo('iy'), WY), 'jx == %s + %s' % (lo('ix'), P2)],
          [win('j'), SP('jz, jy, jx') + ' == p'])
# every row is the row of a grid point
REG.lemma('rows_are_points', G3 + [('r', 'int')] + PT, GRID + ['0 <= r', 'r < nx * ny * nz', 'iz == r / nx / ny', 'iy == r / nx % ny', 'ix == r % nx'], [' && '.join(IN), 'gridrow(nx, ny, iz, iy, ix) == r'], nl='real',
          hints=['apply dv_def(r, nx)', 'apply dv_def(r / nx, ny)', 'assert iz * ny + iy == r / nx', 'assert (iz * ny + iy) * nx + ix == r', 'assert iz < nz by when iz >= nz do assert iz * ny >= nz * ny'])

PT_ = ('iz', 'iy', 'ix')


def matrix(c, cfg):
    """the object generated into, the grid, and what the generator promises"""
    b, used = cfg['base'], cfg['used']
    c.ghost('nnz')
    c.csr('A', nnz='nnz', m=None, rowptr=used, colidx=used, values=used, idiag=used, diag=used, diagptr=used, extptr=used)
    c.known('A->ownData_', used)
    c.known('base', b)
    if used:
        c.req('0 <= A->m')
    c.null('A->extptr')
    for f in ('m', 'n'):
        c.assign('A->' + f)
    n = cfg.get('points', 'nx * ny * nz')
    for f, t, l in (('rowptr', 'int', n + ' + 1'), ('colidx', 'int', 'content(A->rowptr)[%s] - %d' % (n, b)), ('values', 'double', 'content(A->rowptr)[%s] - %d' % (n, b)),
                    ('diagptr', 'int', n), ('idiag', 'double', n), ('diag', 'double', n)):
        c.newarr('A->' + f, t, l)
    if used:
        for f in ('rowptr', 'colidx', 'values', 'diagptr', 'idiag', 'diag', 'extptr'):
            c.frees('A->' + f)


def promised(b):
    R, C, V, D, I_, G = ['content(A->%s)' % f for f in ('rowptr', 'colidx', 'values', 'diagptr', 'idiag', 'diag')]
    row = lambda z='iz', y='iy', x='ix': 'gridrow(nx, ny, %s, %s, %s)' % (z, y, x)
    e = '%s[%s]' % (R, row())
    f = dict(p='spos(nx, ny, nz, iz, iy, ix, jz, jy, jx)', q='spos(nx, ny, nz, iz, iy, ix, iz, iy, ix)', i=' && '.join(IN), j=' && '.join(JN), n=near(), C=C, V=V, e=e, b=b, r=row(),
             s=row('jz', 'jy', 'jx'), D=D, G=G, I=I_, R=R, c='scnt(nx, ny, nz, iz, iy, ix)')
    return [('dimensions', 'A->m == nx * ny * nz && A->n == nx * ny * nz'), ('row-pointers-start', '%s[0] == %d' % (R, b)),
            ('row-pointers', 'forall iz, iy, ix {{{r}}} in 0..INT_MAX: {i} ==> {R}[{r} + 1] == {R}[{r}] + {c}'.format(**f)),
            ('entries-are-the-neighbours-in-order', 'forall iz, iy, ix, jz, jy, jx {{{p}}} in 0..INT_MAX: {i} && {j} && {n} ==> {C}[{e} - {b} + {p}] == {s} + {b} && '
             '{V}[{e} - {b} + {p}] == (if jz == iz && jy == iy && jx == ix then 26.0 else -1.0)'.format(**f)),
            ('diagonal-positions', 'forall iz, iy, ix {{{r}}} in 0..INT_MAX: {i} ==> {D}[{r}] == {e} + {q}'.format(**f)),
            ('diagonals', 'forall iz, iy, ix {{{r}}} in 0..INT_MAX: {i} ==> {G}[{r}] == 26.0 && {I}[{r}] == 1.0 / 26.0'.format(**f))]


def cube(c, cfg):
    matrix(c, dict(cfg, points='n * n * n'))
    c.req('1 <= n', '27 * n * n * n <= INT_MAX')
    c.ens(*[(nm, re.sub(r'\bn[xyz]\b', 'n', t)) for nm, t in promised(cfg['base'])])


def laplacian(c, cfg):
    b = cfg['base']
    matrix(c, cfg)
    c.req(*GRID)
    c.req('27 * nx * ny * nz <= INT_MAX')
    N = 'nx * ny * nz'
    R, C, V, D, I_, G = ['content(A->%s)' % f for f in ('rowptr', 'colidx', 'values', 'diagptr', 'idiag', 'diag')]
    row = lambda z='iz', y='iy', x='ix': 'gridrow(nx, ny, %s, %s, %s)' % (z, y, x)
    cnt = lambda z='iz', y='iy', x='ix': 'scnt(nx, ny, nz, %s, %s, %s)' % (z, y, x)
    pos = lambda i=('iz', 'iy', 'ix'), j=('jz', 'jy', 'jx'): 'spos(nx, ny, nz, %s, %s)' % (', '.join(i), ', '.join(j))
    J = ('jz', 'jy', 'jx')
    inJ = ' && '.join(JN)
    c.hint('entry', 'apply prod3(nx, ny, nz)', 'apply forall a, b, d {gridrow(nx, ny, a, b, d)} in 0..INT_MAX: row_in(nx, ny, nz, a, b, d)',
           'apply forall a, b, d, z, y, x {gridrow(nx, ny, a, b, d); gridrow(nx, ny, z, y, x)} in 0..INT_MAX: row_lt(nx, ny, nz, a, b, d, z, y, x)')
    c.hint('entry', 'apply forall a, b, d, z, y, x {spos(nx, ny, nz, a, b, d, z, y, x)} in 0..INT_MAX: spos_in(nx, ny, nz, a, b, d, z, y, x)')
    # row pointers
    mono = lambda hi: 'forall x, y {%s[x], %s[y]} in 0..%s + 1: x <= y ==> %s[x] <= %s[y]' % (R, R, hi, R, R)
    rows = lambda before: 'forall jz, jy, jx {%s} in 0..INT_MAX: %s && %s ==> %s[%s + 1] == %s[%s] + %s' % (row(*J), inJ, before, R, row(*J), R, row(*J), cnt(*J))
    bef = {0: 'jz < iz', 1: '(jz < iz || jz == iz && jy < iy)', 2: '(jz < iz || jz == iz && (jy < iy || jy == iy && jx < ix))'}
    at = {0: row('iz', '0', '0'), 1: row('iz', 'iy', '0'), 2: row()}
    for l in (0, 1, 2):
        c.loop(l).inv('%s[0] == 0' % R, '%s[%s] == idx' % (R, at[l]), '0 <= idx && idx <= 27 * %s' % at[l], mono(at[l]), rows(bef[l]))
    c.loop(0).inv('0 <= iz && iz <= nz')
    c.loop(1).inv('0 <= iy && iy <= ny')
    c.loop(2).inv('0 <= ix && ix <= nx')
    c.loop(2).hint('body', 'apply row_in(nx, ny, nz, iz, iy, ix)', 'term ' + row('iz', 'iy', 'ix + 1'), 'term ' + cnt())
    # entries
    ph = c.parfor(0).phase()
    e0 = lambda z='iz', y='iy', x='ix': '%s[%s]' % (R, row(z, y, x))
    for f in ('diagptr', 'idiag', 'diag'):
        ph.own('A->' + f, 'k', '%s <= k && k < %s' % (row('iz', 'iy', '0'), row('iz', 'iy', 'nx')))
    for f in ('colidx', 'values'):
        ph.own('A->' + f, 'k', '%s <= k && k < %s' % (e0('iz', 'iy', '0'), e0('iz', 'iy', 'nx')))
    c.loop(4).hint('entry', *['apply row_in(nx, ny, nz, iz, iy, %s)' % x for x in ('0', 'nx')])
    # the entries of the point ix that satisfy a condition on the neighbour; the diagonal of the point ix
    entry = lambda ix, z='jz', y='jy', x='jx': '{C}[{e} + {p}] == {r} && {V}[{e} + {p}] == (if jz == iz && jy == iy && jx == {i} then 26.0 else -1.0)'.format(
        C=C, V=V, e=e0(x=ix), p=pos(('iz', 'iy', ix), J), r=row(*J), i=ix)
    nbr = lambda ix: '%s && %s' % (inJ, near().replace('ix', ix))
    dia = lambda ix: '{D}[{r}] == {e} + {p} && {G}[{r}] == 26.0 && {I}[{r}] == 1.0 / 26.0'.format(D=D, G=G, I=I_, r=row(x=ix), e=e0(x=ix), p=pos(('iz', 'iy', ix), ('iz', 'iy', ix)))
    ents = lambda cond: 'forall gx, jz, jy, jx {%s} in 0..INT_MAX: %s && %s ==> %s' % (pos(('iz', 'iy', 'gx'), J), cond, nbr('gx'), entry('gx'))
    dias = lambda hi: 'forall gx {%s} in 0..%s: %s' % (row(x='gx'), hi, dia('gx'))
    cols = lambda hi: 'forall k {{{C}[k]}} in {lo}..{hi}: 0 <= {C}[k] && {C}[k] < {N}'.format(C=C, lo=e0(x='0'), hi=hi, N=N)
    bd = lambda hi: 'forall k {{{D}[k]}} in {lo}..{hi}: 0 <= {D}[k] && {D}[k] < INT_MAX'.format(D=D, lo=row(x='0'), hi=hi)
    szb, syb, sxb = lo('iz'), lo('iy'), lo('ix')
    sz, sy, sx = 'iz + sz - ' + szb, 'iy + sy - ' + syb, 'ix + sx - ' + sxb
    cy, cx = deg('iy', 'ny'), deg('ix', 'nx')
    c.loop(4).inv('0 <= ix && ix <= nx', ents('gx < ix'), dias('ix'), cols(e0()), bd(row()))
    at = {5: '(%s) * %s * %s' % (sz, cy, cx), 6: '((%s) * %s + %s) * %s' % (sz, cy, sy, cx), 7: '((%s) * %s + %s) * %s + %s' % (sz, cy, sy, cx, sx)}
    here = {5: 'sz > 0', 6: '(sz > 0 || sz == 0 && sy > 0)', 7: '(sz > 0 || sz == 0 && (sy > 0 || sy == 0 && sx > 0))'}
    for l in (5, 6, 7):
        c.loop(l).inv('idx == %s + %s' % (e0(), at[l]), ents('(gx < ix || gx == ix && %s < %s)' % (pos(('iz', 'iy', 'gx'), J), at[l])), dias('ix'), here[l] + ' ==> ' + dia('ix'),
                      cols('idx'), bd(row()), '%s ==> 0 <= %s[%s] && %s[%s] < INT_MAX' % (here[l], D, row(), D, row()))
    c.loop(5).inv('sz_begin <= sz && sz <= sz_end + 1')
    c.loop(6).inv('sy_begin <= sy && sy <= sy_end + 1')
    c.loop(7).inv('sx_begin <= sx && sx <= sx_end + 1')
    c.loop(4).hint('body', 'apply row_in(nx, ny, nz, iz, iy, ix)', 'term ' + row(x='ix + 1'), 'term ' + cnt(), 'term ' + e0(x='ix + 1'))
    c.loop(7).hint('body', 'apply col_of(nx, ny, nz, iz, iy, ix, sz, sy, sx)', 'term ' + pos(PT_, ('iz + sz', 'iy + sy', 'ix + sx')), 'term ' + pos(PT_, PT_))
    c.loop(7).hint('body', 'apply forall jz, jy, jx {%s} in 0..INT_MAX: spos_inj(nx, ny, nz, iz, iy, ix, jz, jy, jx, iz + sz, iy + sy, ix + sx)' % pos(PT_, J))
    ph.post(ents('gx < nx'), dias('nx'))
    ph.cover('k', e0(x='0'), '0', '%s[%s]' % (R, N), '0 <= {C}[k] && {C}[k] < {N}'.format(C=C, N=N), trigger=C + '[k]')
    ph.cover('k', row(x='0'), '0', N, '0 <= {D}[k] && {D}[k] < INT_MAX'.format(D=D), trigger=D + '[k]')
    c.ens(*promised(b))


REG.fn('_ZN4SpMP23generate3D27PtLaplacianEPNS_3CSREiiii', 'Laplacian.cpp', 'generate3D27PtLaplacian', laplacian,
       configs=[dict(base=b, used=u) for b in (0, 1) for u in (False, True)],
       call_cfg=lambda ver, st, vals: dict(ver.cfg))
REG.fn('_ZN4SpMP23generate3D27PtLaplacianEPNS_3CSREii', 'Laplacian.cpp', 'generate3D27PtLaplacian(cube)', cube,
       configs=[dict(base=b, used=u) for b in (0, 1) for u in (False, True)])
