"""Proof tasks of _commons.py."""
from task import *
from contracts import *

CM = '_commons.py'
n, w, d, i0, f_, m_ = z3.Ints('n w d i0 nf m')
thr = z3.Real('thr')


def by_contract(cx, ct, mk, props, exclude_self=True, cases=((),), label=''):
    """Prove the body of ct's function against ct for each case."""
    for case in cases:
        ip = cx.interp(C.by_name(ct.name))
        st = State()
        args, pre = mk(ip, st, *case)
        st.pc = list(pre)
        # the contract's own precondition is what the body may assume
        ip.quiet += 1
        for kind, c, msg in ct.requires(ip, st, *args):
            st.pc.append(to_z3(c))
        ip.quiet -= 1
        st0 = st.copy()
        rets = cx.run(ip, ct.name, args, st)
        for o in rets:
            s2 = o.st
            wst = st0.copy()
            ip.quiet += 1
            want = ct.result(ip, wst, None, *args)
            ip.quiet -= 1
            nm = ct.name + (' (%s)' % ', '.join(map(str, case)) if case else '')
            cx.same_value(props, ip, s2, o.value, wst, want, '%s returns what its contract says' % nm, ct.name)
            # frame: the arguments are not modified
            for a, p in zip(args, ct.params):
                if isinstance(a, Arr) and o.st.heap[a.buf].content is not st0.heap[a.buf].content:
                    for pr in props:
                        if cx.kinds is None or 'post:' + pr in cx.kinds:
                            cx.obls.append(Obl('post:' + pr, ct.name, 0, 'argument %s is not modified' % p, False, 'frame', 0.0))


BOOL2 = [(a, b) for a in (False, True) for b in (False, True)]
def POST(*ps):
    r = {p: {'post:' + p, 'vacuity'} for p in ps}
    r['C02'] = set(SAFETY) | {'vacuity'}
    if 'C01' in ps:             # the independence of padding and batch rests on the same contracts
        r['C03'] = {'post:C01', 'vacuity'}
    return r



@task('distances', POST('C21', 'C01'), ['manhattan', 'euclidean', 'squared_euclidean'])
def t_dist(cx):
    for nm in ('manhattan', 'euclidean', 'squared_euclidean'):
        by_contract(cx, Distance(nm), lambda ip, st: ([ip.input_array(st, 'x', [n], 'real'), ip.input_array(st, 'y', [m_], 'real')], [n >= 0]),
                    ['C21', 'C01'] if nm == 'manhattan' else ['C21'])


@task('strides', POST('C21', 'C01'), ['generate_strides_1D', 'generate_strides_2D'])
def t_strides(cx):
    by_contract(cx, Strides(1), lambda ip, st, ph: ([ip.input_array(st, 'X', [n], 'real'), w, d, ph], [n >= 0, w >= 1]),
                ['C21', 'C01'], cases=((False,), (True,)))
    by_contract(cx, Strides(2), lambda ip, st, ph: ([ip.input_array(st, 'X2', [f_, n], 'real'), w, d, ph], [n >= 0, f_ >= 0, w >= 1]),
                ['C21', 'C01'], cases=((False,), (True,)))


@task('subsequence', POST('C21', 'C04'), ['get_subsequence'])
def t_subseq(cx):
    by_contract(cx, GetSubsequence(), lambda ip, st, nm, ph: ([ip.input_array(st, 'X', [n], 'real'), i0, w, d, nm, ph], [n >= 0]),
                ['C21', 'C04'], cases=BOOL2)
    # flag given as an integer (0 or 1), as the generators do
    nrm = z3.Int('norm')
    by_contract(cx, GetSubsequence(), lambda ip, st, ph: ([ip.input_array(st, 'X', [n], 'real'), i0, w, d, nrm, ph], [n >= 0, nrm >= 0, nrm <= 1]),
                ['C21', 'C04'], cases=((False,), (True,)))


@task('dist_vector', POST('C21', 'C05', 'C18'), ['compute_shapelet_dist_vector'])
def t_dv(cx):
    by_contract(cx, DistVector(), lambda ip, st, nm, ph: (
        [ip.input_array(st, 'X', [n], 'real'), ip.input_array(st, 'V', [m_], 'real'), w, d, nm, ph], [n >= 0]),
        ['C21', 'C05', 'C18'], cases=BOOL2)


@task('apply_one', POST('C01', 'C18'), ['apply_one_shapelet_one_sample_univariate', 'apply_one_shapelet_one_sample_multivariate'])
def t_apply1(cx):
    by_contract(cx, ApplyOne(False), lambda ip, st: (
        [ip.input_array(st, 'S', [n, w], 'real'), ip.input_array(st, 'V', [m_], 'real'), thr], [w >= 0]), ['C01', 'C18'])
    by_contract(cx, ApplyOne(True), lambda ip, st: (
        [ip.input_array(st, 'S3', [f_, n, w], 'real'), ip.input_array(st, 'V2', [z3.Int('m2'), m_], 'real'), thr],
        [w >= 0, f_ >= 0]), ['C01', 'C18'])


@task('helper_lemmas', {'C21': {'post:C21', 'vacuity'}}, ['get_subsequence', 'generate_strides_1D', 'generate_strides_2D', 'compute_shapelet_dist_vector'])
def t_lemmas(cx):
    """Lemmas over the contracts: a subsequence is a row of the strides; its distance to its own series is zero there."""
    for nm, ph in BOOL2:
        ip = cx.interp()
        st = State()
        X = ip.input_array(st, 'X', [n], 'real')
        X2 = ip.input_array(st, 'X2', [f_, n], 'real')
        c = z3.Int('c')
        st.pc = [n >= 1, w >= 1, d >= 1, 0 <= i0, i0 < n, 0 <= c, c < f_] + ([] if ph else [i0 + (w - 1) * d < n])
        j = z3.Int('j')
        s2 = st.copy()
        s2.pc += [0 <= j, j < w]
        g = ip.elem(st, GetSubsequence().result(ip, st, None, X, i0, w, d, nm, ph))
        S = ip.elem(st, Strides(1).result(ip, st, None, X, w, d, ph))
        r = (lambda j: S(i0, j)) if not nm else z_norm(lambda j: S(i0, j), w)
        tag = '(normalised %s, circular %s)' % (nm, ph)
        cx.post_eq('C21', ip, g(j), r(j), s2, 'the subsequence at i is row i of the strides ' + tag, 'lemma')
        S2 = ip.elem(st, Strides(2).result(ip, st, None, X2, w, d, ph))
        S1 = ip.elem(st, Strides(1).result(ip, st, None, ip.view(X2, [c], st, None), w, d, ph))
        cx.post_eq('C21', ip, S2(c, i0, j), S1(i0, j), s2, '2D strides are the 1D strides of every channel ' + tag, 'lemma')
        V = GetSubsequence().result(ip, st, None, X, i0, w, d, nm, ph)
        D = ip.elem(st, DistVector().result(ip, st, None, X, V, w, d, nm, ph))
        cx.post_eq('C21', ip, D(i0), z3.RealVal(0), st, 'the distance of a series to its own subsequence is zero where it was taken ' + tag, 'lemma')
