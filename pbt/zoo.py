"""Every quantifier of the library behind one small interface, so that the laws that all of them must obey can be
checked on all of them.

A quantifier is described by a JSON-able spec [name, params].  `fit(spec, data)` builds and fits it on a Data object,
`predict(q, spec, bag)` asks it for the prevalences of a bag.  Both use only the public API.
"""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.neighbors import KNeighborsRegressor
from sklearn.tree import DecisionTreeRegressor

from pbt.gen import also
from quantificationlib.bag_generator import PriorShift_BagGenerator
from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.binary.debias import DeBias
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.metrics.multiclass import hd, l1, l2, topsoe
from quantificationlib.multiclass.df import DFX, DFy, HDX, HDy, MMy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import CvMy, EDX, EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.multiclass.knn import PWKQuantifier
from quantificationlib.multiclass.regression import REGX, REGy
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly

DISTANCES = {'hd': hd, 'l1': l1, 'l2': l2, 'topsoe': topsoe}

# name -> (constructor, uses predictions)
BASES = {
    'CC': (CC, True), 'PCC': (PCC, True), 'AC': (AC, True), 'PAC': (PAC, True), 'DFy': (DFy, True), 'HDy': (HDy, True),
    'MMy': (MMy, True), 'FriedmanME': (FriedmanME, True), 'EDy': (EDy, True), 'CvMy': (CvMy, True), 'EM': (EM, True),
    'QUANTy': (QUANTy, True), 'SORDy': (SORDy, True), 'DeBias': (DeBias, True), 'ACOrdinal': (ACOrdinal, True),
    'PDFOrdinaly': (PDFOrdinaly, True), 'REGy': (REGy, True),
    'DFX': (DFX, False), 'HDX': (HDX, False), 'EDX': (EDX, False), 'PWKQuantifier': (PWKQuantifier, False),
    'REGX': (REGX, False),
}
CRISP = {'CC', 'AC', 'ACOrdinal', 'PWKQuantifier'}


def build(spec, **more):
    name, params = spec
    params = dict(params, **more)
    if name in ('OVR', 'FH', 'EoQ'):
        base = build(params.pop('base'))
        if name == 'OVR':
            return OneVsRestQuantifier(base_quantifier=base, **params)
        if name == 'FH':
            return FrankAndHallQuantifier(quantifier=base, **params)
        gen = PriorShift_BagGenerator(n_bags=3, bag_size=params.pop('bag_size', None), random_state=params.pop('seed', 7),
                                      min_prevalence=params.pop('min_prevalence', None))
        return EoQ(base_quantifier=base, bag_generator=gen, **params)
    cls = BASES[name][0]
    if params.get('distance') in DISTANCES:
        params['distance'] = DISTANCES[params['distance']]
    if name in ('REGX', 'REGy'):
        params['bag_generator'] = PriorShift_BagGenerator(n_bags=params.pop('n_bags'), bag_size=params.pop('bag_size'),
                                                          random_state=params.pop('seed', 7))
        r = params.pop('reg')
        params['regression_estimator'] = {'lin': LinearRegression(), 'tree': DecisionTreeRegressor(random_state=0),
                                          'knn': KNeighborsRegressor(3), 'glm': None}[r]
    return cls(**params)


def trains_estimator(spec):
    """Some quantifiers need no predictions for the training set."""
    return spec[0] in ('OVR', 'FH') or 'estimator_train' in BASES[spec[0]][0]().get_params(deep=False)


def equip(spec, train, test):
    """With these classifiers given to the constructor."""
    more = dict(estimator_train=train) if trains_estimator(spec) else {}
    return build(spec, estimator_test=test, **more)


def uses_predictions(spec):
    name, params = spec
    return uses_predictions(params['base']) if name in ('OVR', 'FH', 'EoQ') else BASES[name][1]


def view(spec, P):
    """The predictions in the shape that the quantifier expects."""
    return np.cumsum(P, axis=1)[:, :-1] if spec[0] == 'FH' else P


def fit(spec, X, y, P):
    q = build(spec)
    fit_on(q, spec, X, y, P)
    return q


def fit_on(q, spec, X, y, P):
    if not uses_predictions(spec):
        q.fit(X, y)
    elif spec[0] == 'EoQ':
        q.fit(X if X is not None else np.zeros((len(y), 1)), y, predictions_train=P)
    else:
        q.fit(None, y, predictions_train=view(spec, P))
    return q


def predict(q, spec, X, P):
    if not uses_predictions(spec):
        return q.predict(X)
    return q.predict(None, predictions_test=view(spec, P))


# ---------------------------------------------------------------- strategies
@st.composite
def _bins(draw):
    return draw(also([2, 3, 4, 8, 11], [25, 64, 110]))


BINS = _bins()


@st.composite
def df_params(draw, k, y_based):
    strategies = ['equal_width', 'equal_count', 'normal'] + (['binormal'] if k == 2 else [])
    d = ['HD', 'L1', 'L2'] + (['hd', 'l1', 'l2', 'topsoe'] if k == 2 else [])
    return dict(distribution_function=draw(st.sampled_from(['PDF', 'CDF'])), n_bins=draw(BINS),
                bin_strategy=draw(st.sampled_from(strategies)), distance=draw(st.sampled_from(d)))


@st.composite
def reg_params(draw, glm=False):
    return dict(n_bags=draw(st.sampled_from([20, 40])), bag_size=draw(st.sampled_from([None, 15, 40])),
                n_bins=draw(also([2, 4], [8, 20])), bin_strategy=draw(st.sampled_from(['equal_width', 'normal'])),
                reg=draw(st.sampled_from(['lin', 'tree', 'knn'] + (['glm'] if glm else []))))


@st.composite
def y_spec(draw, k, names=None, nested=True, glm=False):
    """A quantifier based on predictions for k classes."""
    base = ['CC', 'PCC', 'AC', 'PAC', 'DFy', 'DFy', 'HDy', 'MMy', 'FriedmanME', 'EDy', 'CvMy', 'EM', 'REGy']
    base += ['QUANTy', 'SORDy', 'DeBias'] if k == 2 else ['ACOrdinal', 'PDFOrdinaly']
    if nested and k > 2:
        base += ['OVR', 'FH']
    if names is not None:
        base = [b for b in base if b in names]
    name = draw(st.sampled_from(base))
    if name in ('OVR', 'FH'):
        return [name, dict(base=draw(y_spec(2, nested=False)))]
    p = {}
    if name in ('AC', 'PAC'):
        p = dict(distance=draw(st.sampled_from(['HD', 'L1', 'L2'])))
    elif name == 'DFy':
        p = draw(df_params(k, True))
    elif name in ('HDy', 'MMy'):
        p = dict(n_bins=draw(BINS), bin_strategy=draw(st.sampled_from(['equal_width', 'equal_count', 'normal'])))
    elif name == 'FriedmanME':
        p = dict(distance=draw(st.sampled_from(['HD', 'L1', 'L2'] + (['l1', 'hd'] if k == 2 else []))))
    elif name == 'QUANTy':
        p = dict(n_quantiles=draw(also([2, 4, 8, 20], [50, 100])), distance=draw(st.sampled_from(['l1', 'l2'])))
    elif name == 'PDFOrdinaly':
        p = dict(n_bins=draw(also([2, 4, 8], [20, 32])), distance=draw(st.sampled_from(['HD', 'L2', 'EMD'])))
    elif name == 'REGy':
        p = draw(reg_params(glm))
    elif name == 'EM':
        p = dict(epsilon=draw(st.sampled_from([1e-4, 1e-2, 1e-8])), max_iter=draw(st.sampled_from([1, 5, 1000, 1000])))
    return [name, p]


@st.composite
def x_spec(draw, k, names=None, nested=True, glm=False):
    """A quantifier based on the features for k classes."""
    base = ['DFX', 'DFX', 'HDX', 'EDX', 'PWKQuantifier', 'REGX']
    if nested:
        base += ['EoQ'] + (['OVR', 'FH'] if k > 2 else [])
    if names is not None:
        base = [b for b in base if b in names]
    name = draw(st.sampled_from(base))
    if name in ('OVR', 'FH'):
        return [name, dict(base=draw(x_spec(2, nested=False)))]
    if name == 'EoQ':
        return [name, dict(base=draw(x_spec(k, names=['DFX', 'HDX', 'EDX'], nested=False)), n_quantifiers=3,
                           bag_size=30, min_prevalence=0.2 if k < 4 else min(0.15, 0.6 / k), n_bins=draw(st.sampled_from([5, 100])),
                           combination_strategy=draw(st.sampled_from(['mean', 'median', 'prevalence_similarity',
                                                                      'distribution_similarity'])))]
    p = {}
    if name == 'DFX':
        p = draw(df_params(k, False))
    elif name == 'HDX':
        p = dict(n_bins=draw(BINS), bin_strategy=draw(st.sampled_from(['equal_width', 'equal_count', 'normal'])))
    elif name == 'PWKQuantifier':
        p = dict(n_neighbors=draw(st.sampled_from([1, 3, 5])))
    elif name == 'REGX':
        p = draw(reg_params(glm))
    return [name, p]


def label(spec):
    name, p = spec
    if name in ('OVR', 'FH', 'EoQ'):
        return '%s(%s)' % (name, label(p['base']))
    d = p.get('distance')
    return '%s%s' % (name, '/' + d if d else '')
