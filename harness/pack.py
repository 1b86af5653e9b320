"""Replays Pack.tla: surgery on sparse matrices and stacked coefficient vectors."""
from common import *
import scipy.sparse as sps
from funpy.colloc.sparse import csr, csc
from funpy.colloc import tools
from funpy.support.tools import findNextPowerOf2 as fnp
from funpy.colloc.ultraS import matrices as M

VAL = {1000: 1e-17, 1001: 3e-16}


def dn(rows):
    return np.array([[VAL.get(a, float(a)) for a in r] for r in rows], dtype=float)


def sparse(D, fmt, arr):
    """a matrix with the zeros left out and tiny entries stored"""
    i, j = np.nonzero(D)
    return (sps.coo_array if arr else sps.coo_matrix)((D[i, j], (i, j)), shape=D.shape).asformat(fmt)


def run(item, params):
    ops, fails, D, h = {}, [], None, len(json.dumps(item))
    for step, r in enumerate(item):
        op, arg = r['op'], r['arg']
        ops[op] = ops.get(op, 0) + 1
        bad = None
        try:
            if op == 'New':
                D = dn(r['res'])
                continue
            arr, z = (h + step) % 2 == 0, [a - 1 for a in arg] if op not in ('Append', 'Pow2') else arg
            got, keep, src = None, None, None
            if op == 'DelRows':
                if (h + step) % 3 == 0:
                    got, keep = M.delete_rows(D.copy(), np.array(z, dtype=int)), None
                else:
                    src = sparse(D, 'csr', arr)
                    got = (csr.delete_rows_csr if (h + step) % 3 == 1 else M.delete_rows)(src, np.array(z, dtype=int) if h % 2 else z)
                    keep = src
            elif op == 'DelCols':
                src = sparse(D, 'csc', arr)
                got = csc.delete_cols_csc(src, np.array(z, dtype=int) if h % 2 else z) if (h + step) % 3 else M.delete_cols(src, z)
                if z and (h + step) % 5 == 0 and len(z) == 1:
                    got = csc.delete_cols_csc(sparse(D, 'csc', arr), z[0])
            elif op == 'DelRow':
                got = sparse(D, 'csr', arr)
                csr.delete_row_csr(got, z[0])
            elif op == 'DelCol':
                got = sparse(D, 'csc', arr)
                csc.delete_col_csc(got, z[0])
            elif op == 'Append':
                src = sparse(dn(arg), 'csr', arr)
                b = src.toarray()
                got = csr.csr_vappend(sparse(D, 'csr', arr), src)
                if not np.array_equal(src.toarray(), b):
                    bad = ('argument', 'the appended matrix was changed')
            elif op in ('FlipRows', 'FlipCols'):
                keep = sparse(D, ['csr', 'csc', 'coo'][(h + step) % 3], arr)
                got = csr.flip_rows(keep, z) if op == 'FlipRows' else csc.flip_cols(keep, z)
            elif op == 'Zap':
                s = (h + step) % 3
                got = csr.eliminate_zeros(sparse(D, 'csr' if s else 'csc', arr)) if s < 2 else csc.eliminate_zeros_csc(sparse(D, 'csc', arr))
                if got.nnz != np.count_nonzero(dn(r['res'])):
                    bad = ('entries', '%d entries stored, %d are above machine precision' % (got.nnz, np.count_nonzero(dn(r['res']))))
            elif op in ('RemoveBc', 'ReplaceBc', 'GetBc'):
                v = D.flatten(order='F')
                w, m, bw = v.copy(), D.shape[1], arg[0]
                if op == 'RemoveBc':
                    got = tools.remove_bc(v, m, bw=bw) if bw != 2 or h % 2 else tools.remove_bc(v, m)
                elif op == 'ReplaceBc':
                    got = tools.replace_bc(v, m, bw=bw, reshape=True)
                    if not np.array_equal(tools.replace_bc(v, m, bw=bw), got.flatten(order='F')):
                        bad = ('entries', 'stacked and unstacked results differ')
                else:
                    got = tools.get_bc(v, m, bw=bw)
                    if got.shape != (len(r['res']),) or not np.array_equal(got, np.array([VAL.get(a, float(a)) for a in r['res']])):
                        bad = ('entries', 'boundary entries %s' % got)
                    got = None
                if not np.array_equal(v, w):
                    bad = ('argument', 'the vector was changed')
            elif op == 'Pow2':
                a, b = tools.findNextPowerOf2(arg[0]), fnp(arg[0])
                if a != r['res'] or b != r['res']:
                    bad = ('entries', 'next power of two of %d: %r, %r' % (arg[0], a, b))
            if bad is None and keep is not None and not np.array_equal(keep.toarray(), D):
                bad = ('argument', 'the matrix was changed')
            if bad is None and got is not None:
                if sps.issparse(got):
                    got.check_format(full_check=True) if hasattr(got, 'check_format') else None
                    got = got.toarray()
                e = dn(r['res'])
                if got.shape != e.shape or not np.array_equal(got, e):
                    bad = ('entries', '%s %s of %s gives %s instead of %s' % (op, arg, D.tolist(), np.asarray(got).tolist(), e.tolist()))
            if op not in ('GetBc', 'Pow2'):
                D = dn(r['res'])
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            fails.append({'op': op, 'clause': bad[0], 'detail': bad[1][:400] + ' step %d' % step})
            break
    return {'fails': fails, 'steps': len(item), 'ops': ops}


if __name__ == '__main__':
    main(run)
