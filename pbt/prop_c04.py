"""C04: distribution fitting."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st
from pelicun import uq
from scipy.special import log_ndtr, ndtr, ndtri

from pbt.core import Sub, Violation, require, require_same
from pbt.gen import fl, logfl, seeds

RULE = (
    'A case counts when the fitted data has at least three distinct values per '
    'variable, or when percentiles are fitted.'
)
ASSUMPTIONS = [
    'samples are drawn from the family that is fitted; truncation and detection limits '
    'leave at least 10 percent of the probability mass',
    'truncated normal data are generated at unit scale (the optimizer of the repository '
    'moves the parameters of that family in absolute terms)',
    'an optimum may be missed by 2e-3 in log likelihood per data point',
]
QUICK_S = 55
FAM = ['normal', 'normal_cov', 'normal_std', 'lognormal']


@st.composite
def data(draw, kmax=3, scales=(-3, 4), nmin=3, nmax=60):
    k = draw(st.integers(1, kmax))
    return {
        'fam': [draw(st.sampled_from(FAM)) for _ in range(k)],
        'loc': [draw(fl(0.5, 3)) for _ in range(k)],
        'scale': [draw(logfl(*scales)) for _ in range(k)],
        'spread': [draw(fl(0.05, 0.8)) for _ in range(k)],
        'sign': [draw(st.sampled_from([1, 1, -1])) for _ in range(k)],
        'mix': draw(fl(-0.9, 0.9)),
        'n': draw(st.integers(nmin, nmax)), 'seed': draw(seeds()),
        'one': draw(st.booleans()),
    }


def sample_of(c):
    """Data rows and their generating location and spread in fitting space."""
    rng = np.random.default_rng(c['seed'])
    k = len(c['fam'])
    z = rng.standard_normal((k, c['n']))
    for i in range(1, k):
        z[i] = c['mix'] * z[0] + math.sqrt(1 - c['mix'] ** 2) * z[i]
    rows = []
    for i in range(k):
        m, s = c['loc'][i] * c['scale'][i], c['spread'][i]
        if c['fam'][i] == 'lognormal':
            rows.append(m * np.exp(s * z[i]))
        else:
            rows.append(c['sign'][i] * m * (1 + s * z[i]))
    return np.array(rows)


def require_unchanged(raw, x, fam):
    """The data of the caller is intact.

    Rows fitted with a lognormal distribution are excluded: see the known finding
    lognormal-data-overwritten.
    """
    for r, xi, f in zip(raw, x, fam):
        if f != 'lognormal':
            require_same(r, xi, 'the sample given was changed', 0)


def data_overwritten():
    """Probe of the known finding."""
    x = np.array([[1.0, 2.0, 4.0]])
    uq.fit_distribution_to_sample(x, 'lognormal')
    return not np.array_equal(x, [[1.0, 2.0, 4.0]])


KNOWN = {'lognormal-data-overwritten': data_overwritten}


def run_moments(c):
    """Without limits the estimates are the moments (in log space for lognormal)."""
    x = sample_of(c)
    k = len(x)
    fam = c['fam']
    if c['one']:
        fam = [fam[0] if fam[0] != 'lognormal' or np.all(x > 0) else 'normal'] * k
    raw = x.copy()
    theta, rho = uq.fit_distribution_to_sample(
        raw, fam[0] if c['one'] else fam)
    require_unchanged(raw, x, fam)
    st_z = []
    for i in range(k):
        y = np.log(x[i]) if fam[i] == 'lognormal' else x[i]
        mu, sd = float(np.mean(y)), float(np.sqrt(np.mean((y - np.mean(y)) ** 2)))
        st_z.append((y - mu) / sd)
        exp = {
            'lognormal': [math.exp(mu) if fam[i] == 'lognormal' else 0, sd],
            'normal_std': [mu, sd],
        }.get(fam[i], [mu, sd / abs(mu)])
        require_same(theta[i], exp, f'parameters of {fam[i]}', 1e-6)
    if k > 1:
        exp = np.corrcoef(np.array(st_z))
        if np.linalg.eigvalsh(exp).min() > 1e-6:
            require_same(rho, exp, 'correlation', 1e-5, 1e-5)
    else:
        require_same(np.asarray(rho).ravel(), [1.0], 'correlation of one variable')
    return {'nontrivial': True, 'tags': [f'k={k}'] + fam[:1]}


def nll(mu, sd, y, lim, det=None, cens=0):
    """Negative log likelihood of truncated (and censored) normal data."""
    def p(v, dflt):
        return dflt if v is None else float(ndtr((v - mu) / sd))

    pa, pb = p(lim[0], 0.0), p(lim[1], 1.0)
    if pb - pa <= 1e-300:
        return math.inf
    out = float(np.sum(0.5 * ((y - mu) / sd) ** 2 + math.log(sd * math.sqrt(2 * math.pi))
                       + math.log(pb - pa)))
    if cens:
        qa, qb = max(p(det[0], 0.0), pa), min(p(det[1], 1.0), pb)
        out_p = 1 - max(0.0, qb - qa) / (pb - pa)
        out -= cens * math.log(max(out_p, 1e-300))
    return out / len(y)


MODES = ['truncated', 'censored', 'both']
SIDES = ['low', 'high', 'both']
BATCH = 10


@st.composite
def limited(draw):
    fam = draw(st.sampled_from(FAM))
    mode = draw(st.sampled_from(MODES))
    side = draw(st.sampled_from(SIDES if mode != 'censored' else SIDES[:2]))
    return {'fam': fam, 'mode': mode, 'side': side, 'seed': draw(seeds())}


def run_batch(case):
    """Most of a batch of data sets are given (nearly) the most likely parameters.

    The optimizer of the repository is a local search that misses the optimum in about
    two percent of the cases, so the statement is about a batch.
    """
    rng = np.random.default_rng(case['seed'])
    miss = []
    done = 0
    for _ in range(BATCH):
        c = {
            'fam': case['fam'], 'mode': case['mode'], 'side': case['side'],
            'p': [float(rng.uniform(0.02, 0.35)), float(rng.uniform(0.65, 0.98))],
            'z0': float(rng.uniform(2.0, 5.0)), 'med': float(10 ** rng.uniform(-2, 3)),
            'sd': float(rng.uniform(0.2, 0.9)), 'scale': float(10 ** rng.uniform(-3, 3)),
            'n': int(rng.integers(80, 250)), 'seed': int(rng.integers(2**31)),
            'f': float(10 ** rng.uniform(-2, 2)),
        }
        try:
            done += run_limited(c).get('nontrivial', True)
        except Violation as exc:
            if 'changed' in str(exc):
                raise
            done += 1
            miss.append(str(exc))
    require(len(miss) < 0.5 * max(done, 8), '%d of %d data sets (%s, %s, %s): %s',
            len(miss), done, case['fam'], case['mode'], case['side'], miss[0:1])
    return {'nontrivial': done > 4, 'tags': [case['fam'], case['mode'], case['side'],
                                             f'missed {min(len(miss), 3)}']}


def run_limited(c):
    """Maximum likelihood with truncation and detection limits."""
    fam = c['fam']
    log = fam == 'lognormal'
    if log:
        mu, sd = math.log(c['med']), c['sd']
    elif fam == 'normal_cov':
        sd = c['sd'] * c['scale']
        mu = c['z0'] * sd
    else:
        sd = c['sd']
        mu = c['z0'] * sd
    lo = mu + sd * float(ndtri(c['p'][0]))
    hi = mu + sd * float(ndtri(c['p'][1]))
    rng = np.random.default_rng(c['seed'])
    y = mu + sd * rng.standard_normal(c['n'])
    lim, det, cens = [None, None], [None, None], 0
    wall = [lo if c['side'] != 'high' else None, hi if c['side'] != 'low' else None]
    inside = np.ones(len(y), dtype=bool)
    if wall[0] is not None:
        inside &= y > wall[0]
    if wall[1] is not None:
        inside &= y < wall[1]
    if c['mode'] == 'truncated':
        lim = wall
        y = y[inside]
    else:
        det = wall
        if c['mode'] == 'both':
            lim = [None, mu + 2.5 * sd] if c['side'] != 'high' else [mu - 2.5 * sd, None]
            ok = np.ones(len(y), dtype=bool)
            if lim[0] is not None:
                ok &= y > lim[0]
            if lim[1] is not None:
                ok &= y < lim[1]
            y, inside = y[ok], inside[ok]
        cens = int((~inside).sum())
        y = y[inside]
    if len(y) < 20 or (c['mode'] != 'truncated' and cens == 0):
        return {'nontrivial': False}

    def fit(f):
        x = np.exp(y) * f if log else y * f
        def lims(v):
            return np.array([np.nan if t is None else (math.exp(t) if log else t) * f
                             for t in v])
        raw, tl, dl = x.copy(), lims(lim), lims(det)
        t0, d0 = tl.copy(), dl.copy()
        try:
            theta, _ = uq.fit_distribution_to_sample(
                raw, fam, tl, censored_count=cens, detection_limits=dl)
        except ValueError as exc:  # the optimizer ended at unusable parameters
            raise Violation(f'no fit: {exc}') from exc
        require_unchanged(np.atleast_2d(raw), np.atleast_2d(x), [fam])
        require_same(tl, t0, 'the truncation limits given were changed', 0)
        require_same(dl, d0, 'the detection limits given were changed', 0)
        return float(theta[0][0]), float(theta[0][1])

    m, s = fit(1.0)
    if log:
        m = math.log(m)
    elif fam != 'normal_std':
        s = s * abs(m)
    got = nll(m, s, y, lim, det, cens)
    require(s > 0 and math.isfinite(got), 'fit of %s: mean %r, std %r', fam, m, s)
    start = nll(float(np.mean(y)), float(np.std(y)), y, lim, det, cens)
    truth = nll(mu, sd, y, lim, det, cens)
    require(got <= start + 2e-3,
            '%s: the fit (%r, %r) is less likely (%r) than the moments of the data (%r)',
            fam, m, s, got, start)
    require(got <= truth + 2e-3,
            '%s: the fit (%r, %r) is less likely (%r) than the parameters (%r, %r) the '
            'data were drawn from (%r)', fam, m, s, got, mu, sd, truth)
    if fam in {'lognormal', 'normal_cov'} and cens == 0:
        m2, s2 = fit(c['f'])
        if log:
            m2 = math.log(m2) - math.log(c['f'])
        else:
            m2 /= c['f']
            s2 = s2 * abs(m2)
        got2 = nll(m2, s2, y, lim, det, cens)
        require(abs(got2 - got) < 2e-3, '%s: likelihood %r after a change of units, '
                '%r before', fam, got2, got)
    return {'tags': [fam, c['mode'], c['side']]}


@st.composite
def joint(draw):
    return {'k': draw(st.integers(2, 3)), 'n': draw(st.integers(80, 200)),
            'seed': draw(seeds()), 'mix': draw(fl(-0.8, 0.8)),
            'p': draw(fl(0.9, 0.99)), 'fam': draw(st.sampled_from(['lognormal'])),
            'multi': draw(st.booleans())}


def run_joint(c):
    """Correlation is estimated in the standard normal space of the fitted marginals."""
    rng = np.random.default_rng(c['seed'])
    z = rng.standard_normal((c['k'], c['n']))
    for i in range(1, c['k']):
        z[i] = c['mix'] * z[0] + math.sqrt(1 - c['mix'] ** 2) * z[i]
    cut = float(ndtri(c['p']))
    z = z[:, np.all(z < cut, axis=0)]
    x = np.exp(0.4 * z)
    lim = np.array([np.nan, math.exp(0.4 * cut)])
    lims = np.array([lim] * c['k'])
    theta, rho = uq.fit_distribution_to_sample(
        x.copy(), ['lognormal'] * c['k'], lims, multi_fit=c['multi'])
    zz = []
    for (m, s), xi in zip(theta, x):
        u = ndtr((np.log(xi) - math.log(m)) / s)
        pb = ndtr((math.log(lim[1]) - math.log(m)) / s)
        zz.append(ndtri(u / pb))
    zz = np.array(zz)
    exp = zz @ zz.T / zz.shape[1]
    np.fill_diagonal(exp, 1.0)
    if np.linalg.eigvalsh(exp).min() > 1e-4:
        require_same(rho, exp, 'correlation', 1e-5, 1e-5)
    require(bool(np.allclose(np.diag(rho), 1.0)) and bool(np.allclose(rho, rho.T)),
            'the correlation matrix is not valid: %s', np.asarray(rho).tolist())
    return {'tags': [f'k={c["k"]}', 'multi' if c['multi'] else 'marginal']}


@st.composite
def partly(draw):
    k = draw(st.integers(2, 3))
    return {'limits': draw(st.permutations(
        ['none', draw(st.sampled_from(['low', 'high', 'both'])),
         *(['both'] if k == 3 else [])])),
            'fam': draw(st.sampled_from(['lognormal', 'normal_std'])),
            'seed': draw(seeds())}


def run_partly(case):
    """Limits of one variable are considered whether or not the others have limits."""
    rng = np.random.default_rng(case['seed'])
    log = case['fam'] == 'lognormal'
    miss, done = [], 0
    for _ in range(6):
        ys, lims, sds = [], [], []
        n = int(rng.integers(60, 150))
        for side in case['limits']:
            sd = float(rng.uniform(0.3, 0.8))
            lo = -sd * float(rng.uniform(0.1, 0.8)) if side in {'low', 'both'} else -np.inf
            hi = sd * float(rng.uniform(0.1, 0.8)) if side in {'high', 'both'} else np.inf
            pa, pb = ndtr(lo / sd), ndtr(hi / sd)
            ys.append(2.0 * (not log) + sd * ndtri(pa + (pb - pa) * rng.uniform(size=n)))
            lims.append([None if np.isinf(v) else v + 2.0 * (not log) for v in (lo, hi)])
            sds.append(sd)
        x = np.exp(ys) if log else np.array(ys)
        tl = np.array([[np.nan if v is None else math.exp(v) if log else v for v in r]
                       for r in lims])
        try:
            theta, _ = uq.fit_distribution_to_sample(
                x, [case['fam']] * len(ys), tl, multi_fit=False)
        except ValueError as exc:
            miss.append(str(exc))
            done += 1
            continue
        for (m, s), y, lim, sd in zip(theta, ys, lims, sds):
            m = math.log(m) if log else float(m)
            got = nll(m, float(s), y, lim)
            start = nll(float(np.mean(y)), float(np.std(y)), y, lim)
            truth = nll(2.0 * (not log), sd, y, lim)
            if lim == [None, None]:
                require(got <= start + 1e-6, 'the fit without limits (%r, %r) is less '
                        'likely than the moments', m, s)
                continue
            done += 1
            if got > min(start, truth) + 2e-3:
                miss.append(f'({m}, {s}) within {lim}: {got}, moments {start}, drawn from '
                            f'{truth}')
    require(len(miss) < 0.5 * max(done, 6), '%d of %d variables (%s): %s', len(miss), done,
            case['limits'], miss[0:1])
    return {'tags': [f'missed {min(len(miss), 3)}', case['fam']]}


@st.composite
def percentiles(draw):
    fam = draw(st.sampled_from(['normal', 'lognormal']))
    k = draw(st.integers(2, 4))
    ps = draw(st.lists(st.sampled_from(
        [0.05, 0.1, 0.16, 0.25, 0.5, 0.6, 0.75, 0.84, 0.9, 0.95]),
        min_size=k, max_size=k, unique=True))
    return {'fam': fam, 'p': sorted(ps) if draw(st.booleans()) else ps,
            'mu': draw(fl(2, 60)), 'cov': draw(fl(0.05, 0.4)),
            'both': draw(st.booleans()), 'rev': draw(st.booleans())}


def run_percentiles(c):
    """Exact percentiles of a distribution identify the distribution."""
    if max(c['p']) == 0.5:
        return {'nontrivial': False}
    zs = ndtri(np.array(c['p']))
    if c['fam'] == 'normal':
        true = [c['mu'], c['mu'] * c['cov']]
        vals = true[0] + true[1] * zs
    else:
        true = [c['mu'], c['cov']]
        vals = c['mu'] * np.exp(c['cov'] * zs)
    if max(c['p']) < 0.5:
        return {'nontrivial': False}
    fams = [c['fam']]
    if c['both']:
        fams = ['normal', 'lognormal']
        if c['rev']:
            fams = fams[::-1]
    fam, theta = uq.fit_distribution_to_percentiles(vals.tolist(), list(c['p']), fams)
    require(fam in fams, 'family %s', fam)
    if fam == 'normal':
        hat = theta[0] + theta[1] * zs
    else:
        hat = theta[0] * np.exp(theta[1] * zs)
    require_same(hat, vals, f'{fam} {list(theta)} at {c["p"]}', 2e-3, 1e-3)
    if len(c['p']) > 2 and max(c['p']) >= 0.84 and min(c['p']) <= 0.16 \
            and c['cov'] > 0.15:
        require(fam == c['fam'], 'the percentiles of a %s distribution are given a %s one',
                c['fam'], fam)
    return {'tags': [c['fam']]}


SUBS = [
    Sub('moments', data(), run_moments, 400, 8000),
    Sub('limited', limited(), run_batch, 90, 2400),
    Sub('joint', joint(), run_joint, 36, 500),
    Sub('partly', partly(), run_partly, 30, 500),
    Sub('percentiles', percentiles(), run_percentiles, 150, 2500),
]
_ = log_ndtr
