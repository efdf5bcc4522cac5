"""C30: configurations from scripts, and configurations that cannot be run."""
from __future__ import annotations

import contextlib
import copy
import io
import json
import sys
from pathlib import Path

import pandas as pd
from hypothesis import strategies as st
from pelicun.pelicun_warnings import PelicunInvalidConfigError
from pelicun.tools import DL_calculation as DLC

from pbt import calc, hurricane
from pbt.core import Discard, Sub, Violation, require
from pbt.gen import fl, maybe
from pbt.prop_c28 import contents
from pbt.prop_c31 import LEGACY, kind_of_legacy
from pbt.regional import Library

RULE = ('A case of `script` counts when more than three files of results are compared; a '
        'case of `skipped` or `refused` counts when there are results to keep.')
ASSUMPTIONS = [
    'the explicit configuration with the same seed is run by the same code (C28 and C29 are '
    'about those)',
    'scripts do not import other modules',
]
QUICK_S = 60

LIBRARY = ['Hazus Earthquake - Buildings', 'FEMA P-58', 'Hazus Hurricane Wind',
           'Hazus Earthquake - Transportation']
SCRIPT = '''
import pandas as pd

DL = {dl!r}
ROWS = {rows!r}


def auto_populate(aim):
    gi = aim['GeneralInformation']
    demands = aim['DL']['Demands']
    comp = pd.DataFrame(ROWS, columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0'])
    comp.loc[0, 'Theta_0'] = gi['FloorArea']
    comp = comp.set_index('ID')
    dl = dict(DL)
    if isinstance(dl.get('Asset'), dict):
        dl['Asset'] = dict(dl['Asset'], NumberOfStories=gi['NumberOfStories'])
    gi_ap = dict(gi, Known={known!r}, Demand=str(demands.get('DemandFilePath')),
                 Size=demands.get('SampleSize'))
    return gi_ap, {result}, comp
'''
SETTINGS = {'CondenseDS': True, 'SimpleIndexInJSON': True,
            'AggregateColocatedComponentResults': True}


def outputs(detailed, lossy, flags):
    """Results of a calculation whose configuration is from a script."""
    y = {'Sample': True, 'Statistics': True}
    grp = {'GroupedSample': True, 'GroupedStatistics': True}
    loss = {**y, **grp, 'AggregateSample': True, 'AggregateStatistics': True}
    if detailed:
        out = {'Demand': dict(y), 'Asset': dict(y), 'Damage': {**y, **grp},
               'Loss': {'Repair': loss}, 'Format': {'CSV': True, 'JSON': True},
               'Settings': dict(SETTINGS)}
    else:
        out = {'Demand': {'Sample': True}, 'Asset': {'Sample': True}, 'Damage': dict(grp),
               'Loss': {'Repair': loss}, 'Format': {'CSV': False, 'JSON': True},
               'Settings': dict(SETTINGS)}
    if not lossy:
        del out['Loss']
    if flags is not None:
        if not flags['IM'] and not flags['EDP']:
            del out['Demand']
        if not flags['DM']:
            del out['Damage']
        if not flags['DV']:
            out.pop('Loss', None)
    return out


@st.composite
def cases(draw):
    c = draw(calc.cases())
    coupled = draw(st.integers(0, 3)) > 0
    return {
        'calc': {**c, 'outputs': None, 'format': None, 'override': None,
                 'where': draw(st.sampled_from(['demands', 'demands', 'sampling']))},
        'method': draw(st.sampled_from([*LIBRARY, 'user', 'user'])),
        'detailed': draw(st.booleans()), 'coupled': coupled,
        'flags': draw(maybe(st.tuples(*[st.booleans()] * 4).map(list), 0.5)),
        'format': draw(maybe(st.sampled_from(['csv', 'json', 'csv,json']), 0.4)),
        'options': draw(st.sampled_from(['script', 'asset', 'both', 'both'])),
        'mask': draw(st.integers(0, 255)),
        'demand': draw(st.sampled_from(['argument', 'argument', 'default'])),
        'main': draw(st.booleans()), 'again': draw(st.booleans()),
        'area': draw(fl(0.5, 20.0, 3)), 'before': draw(st.booleans())}


def rows_of(case):
    df = pd.read_csv('components.csv', dtype={'Location': str, 'Direction': str})
    rows = df.to_numpy(dtype=object).tolist()
    return [[str(r[0]), r[1], r[2], r[3], float(r[4])] for r in rows]


def run(config, case, out, custom, *, explicit):
    """Run a calculation as a function or as a program."""
    fmt = case['format']
    demand = 'edp table.csv' if case['demand'] == 'argument' else None
    n = case['calc']['n']
    old = sys.argv
    with contextlib.redirect_stdout(io.StringIO()):
        if not case['main']:
            DLC.run_pelicun(
                config, demand, out, n, None, custom,
                None if fmt is None else fmt.split(','),
                detailed_results=case['detailed'],
                coupled_edp=case['coupled'] and not explicit)
            return
        args = ['DL_calculation.py', '-c', config, '--dirnameOutput', out, '-s', str(n),
                '--detailed_results', str(case['detailed']), '--coupled_EDP',
                str(case['coupled'] and not explicit)]
        if demand is not None:
            args += ['-d', demand]
        if custom is not None:
            args += ['--custom_model_dir', custom]
        if fmt is not None:
            args += ['--output_format', fmt]
        sys.argv = args
        try:
            DLC.main()
        finally:
            sys.argv = old


def prepare(case, lib):
    """The script, and the configurations of the asset and of the calculation."""
    c = case['calc']
    cfg, custom = calc.write(c, lib)
    text = Path('edp table.csv').read_text()
    Path('inputs').mkdir()
    if case['demand'] == 'default':
        # a file with this name next to the configuration is used by default
        Path('inputs/response.csv').write_text(text)
    rows = rows_of(case)
    rows[0][4] = case['area']
    df = pd.DataFrame(rows, columns=['ID', 'Units', 'Location', 'Direction', 'Theta_0'])
    df.set_index('ID').to_csv('components.csv')
    explicit = copy.deepcopy(cfg)
    dl = copy.deepcopy(cfg['DL'])
    for k in ('DemandFilePath', 'SampleSize', 'CoupledDemands'):
        dl['Demands'].pop(k, None)
    dl['Asset'].pop('ComponentAssignmentFile')
    dl['Asset'].pop('NumberOfStories')
    dl.pop('Outputs', None)
    opts = dl.pop('Options')
    aim = {}
    if case['options'] in {'script', 'both'}:
        dl['Options'] = opts
    if case['options'] == 'asset':
        aim = opts
    elif case['options'] == 'both':
        # those of the script are used
        aim = {k: dl['Options'].pop(k) for i, k in enumerate(list(dl['Options']))
               if case['mask'] >> i & 1}
        for k, v in dl['Options'].items():
            if k == 'Seed':
                aim[k] = v + 1
            elif k in {'ListAllDamageStates', 'Verbose'}:
                aim[k] = not v
            elif k == 'NonDirectionalMultipliers':
                aim[k] = dict.fromkeys(v, 7.7)
            elif k == 'DemandOffset':
                aim[k] = dict.fromkeys(v, 1)
    d = explicit['DL']['Demands']
    for k in ('SampleSize', 'CoupledDemands', 'DemandFilePath'):
        d.pop(k, None)
    if c['where'] == 'demands':
        d['SampleSize'] = c['n']
    if case['coupled']:
        d['CoupledDemands'] = True
    else:
        d['Calibration'] = {'ALL': {'DistributionFamily': 'lognormal'}}
    flags = None if case['flags'] is None else dict(zip(('IM', 'EDP', 'DM', 'DV'),
                                                        case['flags']))
    explicit['DL']['Outputs'] = outputs(case['detailed'], 'Losses' in dl, flags)
    Path('inputs/explicit.json').write_text(json.dumps(explicit))
    folder = custom if case['method'] == 'user' else lib.folder(case['method'])
    (folder / 'pelicun_config.py').write_text(SCRIPT.format(
        dl=dl, rows=[[*r[:4], 0.0] if i == 0 else r for i, r in enumerate(rows)],
        known='value', result='dl'))
    app = {'DL_Method': 'User-provided Models' if case['method'] == 'user'
           else case['method']}
    if aim:
        app['Options'] = aim
    asset = {'GeneralInformation': {
        'units': {'length': c['length']}, 'FloorArea': case['area'], 'AssetName': 'x y',
        'NumberOfStories': explicit['DL']['Asset']['NumberOfStories']},
        'Applications': {'DL': {'ApplicationData': app}}}
    if flags is not None:
        asset['outputs'] = flags
    Path('inputs/asset 1.json').write_text(json.dumps(asset))
    return str(custom.resolve())


def run_script(case):
    """The configuration of the script gives what the same explicit configuration gives."""
    with calc.fresh(), Library() as lib:
        custom = prepare(case, lib)
        if case['before']:
            Path('auto').mkdir()
            for k in ('DMG_sample.zip', 'DL_summary.json', 'DV_repair_agg.zip'):
                Path('auto', k).write_text('of an earlier calculation')
        try:
            run('inputs/explicit.json', case, 'explicit', custom, explicit=True)
        except Exception:
            if case['coupled']:
                raise
            # not every sample can be fitted
            raise Discard from None
        exp = contents(Path('explicit'))
        source = {p: p.read_bytes() for p in Path('inputs').iterdir()}
        run('inputs/asset 1.json', case, 'auto', custom, explicit=False)
        for p, b in source.items():
            require(p.read_bytes() == b, '%s was changed', p)
        got = contents(Path('auto'))
        comp = pd.read_csv('auto/CMP_QNT.csv', index_col=0, dtype=str)
        ref = pd.read_csv('components.csv', index_col=0, dtype=str)
        got.pop('CMP_QNT.csv')
        require(comp.equals(ref), 'components %s instead of %s', comp.to_dict(),
                ref.to_dict())
        same(got, exp, 'with the script')
        ap = json.loads(Path('asset 1_ap.json').read_text())
        gi = ap['GeneralInformation']
        require(gi['Known'] == 'value' and gi['AssetName'] == 'x y', 'information %s', gi)
        require(gi['Size'] == str(case['calc']['n']) and gi['Demand'] == (
            'edp table.csv' if case['demand'] == 'argument' else 'None'),
            'the script got %s', gi)
        if case['again']:
            Path('inputs/saved.json').write_text(json.dumps(ap))
            run('inputs/saved.json', case, 'again', custom, explicit=True)
            same(contents(Path('again')), exp, 'with the saved configuration')
    return {'nontrivial': len(exp) > 3, 'tags': [
        case['method'], 'detailed' if case['detailed'] else 'lean',
        'coupled' if case['coupled'] else 'fitted', case['options']]}


def same(got, exp, what):
    require(set(got) == set(exp), 'files %s: %s missing, %s more', what,
            sorted(set(exp) - set(got)), sorted(set(got) - set(exp)))
    for k, v in exp.items():
        require(got[k] == v, '%s differs %s: %.300s instead of %.300s', k, what, got[k], v)


@st.composite
def methods(draw):
    return {'calc': draw(hurricane.cases(pair=True)), 'detailed': draw(st.booleans()),
            'coupled': True, 'flags': None, 'demand': 'argument', 'main': draw(st.booleans()),
            'format': draw(maybe(st.sampled_from(['csv', 'json', 'csv,json']), 0.4)),
            'space': draw(st.booleans())}


def run_methods(case):
    """Two methods: the components and databases of both, losses combined."""
    c = case['calc']
    with calc.fresh(), Library() as lib:
        custom = str(hurricane.write(c, lib).resolve())
        Path('response.csv').rename('edp table.csv')
        explicit = json.loads(Path('config.json').read_text())
        d = explicit['DL']['Demands']
        d.pop('DemandFilePath')
        explicit['DL']['Outputs'] = outputs(case['detailed'], True, None)
        Path('explicit.json').write_text(json.dumps(explicit))
        run('explicit.json', case, 'explicit', custom, explicit=True)
        exp = contents(Path('explicit'))
        rows = rows_of(case)
        for kind, folder in c['folder'].items():
            mine = [r for r in rows if c['comps'][r[0]]['kind'] == kind]
            dl = copy.deepcopy(explicit['DL'])
            dl.pop('Outputs')
            dl['Demands'] = {}
            dl['Asset'].pop('ComponentAssignmentFile')
            dl['Asset']['ComponentDatabase'] = folder
            dl['Losses']['Repair']['ConsequenceDatabase'] = folder
            dl['Losses']['Repair'].pop('CombinationMethod')
            if kind == 'PIH':
                # the databases of the second method are added to those of the first
                dl['Options']['Seed'] += 1
                dl['Losses']['Repair']['DecisionVariables'] = {'Cost': True}
            (lib.folder(folder) / 'pelicun_config.py').write_text(SCRIPT.format(
                dl=dl, rows=mine, known='value', result='dl'))
        Path('asset.json').write_text(json.dumps({
            'GeneralInformation': {'units': {'length': 'm'}, 'FloorArea': 1.0,
                                   'NumberOfStories': 1},
            'Applications': {'DL': {'ApplicationData': {'DL_Method': (
                ', ' if case['space'] else ',').join(c['folder'].values())}}}}))
        run('asset.json', case, 'auto', custom, explicit=False)
        got = contents(Path('auto'))
        got.pop('CMP_QNT.csv')
        comp = pd.read_csv('auto/CMP_QNT.csv', index_col=0, dtype=str)
        require(sorted(comp.index) == sorted(c['comps']), 'components %s', list(comp.index))
        same(got, exp, 'with two methods')
    return {'nontrivial': len(exp) > 3, 'tags': ['detailed' if case['detailed'] else 'lean']}


# ---- calculations that are not run -------------------------------------------------------

OLD = {'DEM_sample.zip': 'results', 'DL_summary.csv': 'of', 'DMG_grp.json': 'another',
       'notes.txt': 'calculation'}


def keep(out):
    out.mkdir()
    for k, v in OLD.items():
        (out / k).write_text(v)


def kept(out, what, more=()):
    have = {p.name: p.read_text() for p in out.iterdir() if p.name not in more}
    require(have == OLD, 'earlier results are lost although %s: %s', what, have)


@st.composite
def skips(draw):
    return {'calc': {**draw(calc.cases()), 'outputs': None},
            'method': draw(st.sampled_from([*LIBRARY, 'user'])),
            'kind': draw(st.sampled_from(['N/A', 'N/A', 'empty', 'none', 'no script'])),
            'detailed': draw(st.booleans()), 'coupled': draw(st.booleans()), 'flags': None,
            'format': None, 'options': 'script', 'mask': 0, 'demand': 'argument',
            'main': draw(st.booleans()), 'area': 1.0}


def run_skipped(case):
    """Scripts that ask for no calculation, or have no configuration."""
    with calc.fresh(), Library() as lib:
        custom = prepare(case, lib)
        folder = Path(custom) if case['method'] == 'user' else lib.folder(case['method'])
        script = folder / 'pelicun_config.py'
        if case['kind'] == 'no script':
            script.unlink()
        else:
            res = {'N/A': "'N/A'", 'empty': '{}', 'none': 'None'}[case['kind']]
            script.write_text(SCRIPT.format(dl={}, rows=[['A', 'EA', '1', '1', 1.0]],
                                            known='value', result=res))
        out = Path('auto')
        keep(out)
        try:
            run('inputs/asset 1.json', case, 'auto', custom, explicit=False)
        except PelicunInvalidConfigError:
            require(case['kind'] != 'N/A', 'the request to skip the calculation is refused')
        else:
            require(case['kind'] == 'N/A', 'a script without a configuration is accepted')
        kept(out, 'nothing is calculated')
    return {'nontrivial': True, 'tags': [case['kind']]}


def drop(d, path):
    *head, last = path.split('/')
    for k in head:
        d = d.get(k, {})
    d.pop(last, None)


FLAWS = {
    'no size': lambda c: (drop(c, 'DL/Demands/SampleSize'), drop(c, 'DL/Options/Sampling')),
    'residual drift without a method': lambda c: c['DL']['Demands'].update(
        {'InferResidualDrift': {'1': 0.01}}),
    'collapse without its median': lambda c: c['DL']['Damage'].update(
        {'CollapseFragility': {'DemandType': 'PID', 'CapacityDistribution': 'lognormal',
                               'Theta_1': 0.3}}),
    'collapse without its spread': lambda c: c['DL']['Damage'].update(
        {'CollapseFragility': {'DemandType': 'PID', 'CapacityDistribution': 'lognormal',
                               'CapacityMedian': 0.1}}),
    'irreparable damage without its spread': lambda c: c['DL']['Damage'].update(
        {'IrreparableDamage': {'DriftCapacityMedian': 0.01}}),
    'irreparable damage without its median': lambda c: c['DL']['Damage'].update(
        {'IrreparableDamage': {'DriftCapacityLogStd': 0.3}}),
    'process without its file': lambda c: (c['DL']['Damage'].update(
        {'DamageProcess': 'User Defined'}), drop(c, 'DL/Damage/DamageProcessFilePath')),
    'no damage to save': lambda c: (c['DL'].pop('Damage'), c['DL'].pop('Losses', None),
                                    c['DL'].update({'Outputs': {'Damage': {
                                        'Sample': True}}})),
    'no losses to save': lambda c: (c['DL'].pop('Losses', None), c['DL'].update(
        {'Outputs': {'Loss': {'Repair': {'Sample': True}}}})),
    'two sources of components': lambda c: c['DL']['Asset'].update(
        {'ComponentSampleFile': 'components.csv'}),
    'no components': lambda c: drop(c, 'DL/Asset/ComponentAssignmentFile'),
    'no asset': lambda c: (drop(c, 'DL/Asset'), c['DL'].update(
        {'Outputs': {'Demand': {'Sample': True}}})),
    'no units': lambda c: c['GeneralInformation'].pop('units'),
    'no information': lambda c: c.pop('GeneralInformation'),
    'text for a switch': lambda c: c['DL']['Demands'].update({'CoupledDemands': 'yes'}),
    'list of databases': lambda c: c['DL']['Asset'].update(
        {'ComponentDatabase': ['FEMA P-58']}),
    'number for a process': lambda c: c['DL']['Damage'].update({'DamageProcess': 4}),
    'limits in a list': lambda c: c['DL']['Demands'].update({'CollapseLimits': [0.1]}),
}


@st.composite
def flawed(draw):
    return {'calc': draw(calc.cases()), 'flaw': draw(st.sampled_from(sorted(FLAWS)))}


def run_refused(case):
    """Configurations with a flaw are refused before earlier results are removed."""
    with calc.fresh(), Library() as lib:
        cfg, custom = calc.write(case['calc'], lib)
        FLAWS[case['flaw']](cfg)
        Path('config.json').write_text(json.dumps(cfg))
        out = Path('results')
        keep(out)
        try:
            calc.execute(case['calc'], lib, prepared=(cfg, custom))
        except PelicunInvalidConfigError:
            pass
        else:
            raise Violation(f'accepted: {case["flaw"]}')
        kept(out, case['flaw'])
    return {'nontrivial': True, 'tags': [case['flaw']]}


# ---- other forms of the same configuration --------------------------------------------


def older(kind):
    """Earlier names of the databases of the library."""
    def change(text):
        out = []
        for m in text.split(','):
            old = [k for k, x in LEGACY.items()
                   if x == m.strip() and kind_of_legacy(k) == kind]
            out.append(f'{old[0]}.csv' if old else m)
        return ','.join(out)
    return change


def form_loss_name(c, _):
    c['DL']['Losses']['BldgRepair'] = c['DL']['Losses'].pop('Repair')


def form_output_name(c, _):
    out = c['DL']['Outputs']['Loss']
    out['BldgRepair'] = out.pop('Repair')


def form_map_column(c, custom):
    if c['DL']['Losses']['Repair']['MapApproach'] != 'User Defined':
        raise KeyError
    p = Path(custom) / 'loss_map.csv'
    tab = pd.read_csv(p, index_col=0, dtype=str, keep_default_na=False)
    tab.rename(columns={'Repair': 'BldgRepair'}).to_csv(p)


def form_size(c, _):
    dl = c['DL']
    if 'SampleSize' in dl['Demands']:
        dl['Options']['Sampling'] = {'SampleSize': int(dl['Demands'].pop('SampleSize'))}
    else:
        dl['Demands']['SampleSize'] = str(dl['Options'].pop('Sampling')['SampleSize'])


def form_stories(c, _):
    a = c['DL']['Asset']
    a['NumberOfStories'] = (int if isinstance(a['NumberOfStories'], str) else str)(
        a['NumberOfStories'])


def form_frag_names(c, _):
    a = c['DL']['Asset']
    a['ComponentDatabase'] = older('fragility')(a['ComponentDatabase'])


def form_cons_names(c, _):
    a = c['DL']['Losses']['Repair']
    a['ConsequenceDatabase'] = older('consequence_repair')(a['ConsequenceDatabase'])


def form_list(c, _):
    if 'ListAllDamageStates' in c['DL']['Options']:
        raise KeyError
    c['DL']['Options']['ListAllDamageStates'] = True


def form_format(c, _):
    if 'Format' in c['DL']['Outputs']:
        raise KeyError
    c['DL']['Outputs']['Format'] = {'CSV': True, 'JSON': False}


def form_blank(c, _):
    c['DL']['Options'].update(Verbose=True, LogShowMS=True, EconomiesOfScale={})


def form_median(c, _):
    f = c['DL']['Damage']['CollapseFragility']
    f['CapacityMedian'] = (float if isinstance(f['CapacityMedian'], str) else repr)(
        f['CapacityMedian'])


def form_more(c, _):
    c['GeneralInformation'].update(NumberOfStories=7, PlanArea=1e3, note='text')
    c['Applications'] = {'Other': {'Application': 'x'}}


FORMS = {k[5:]: v for k, v in list(globals().items()) if k.startswith('form_')}


@st.composite
def forms(draw):
    return {'calc': draw(calc.cases(outputs=True)), 'forms': draw(st.lists(
        st.sampled_from(sorted(FORMS)), min_size=2, max_size=8, unique=True))}


def run_forms(case):
    """Earlier and other forms of a configuration give the same results."""
    done = []
    with calc.fresh(), Library() as lib:
        cfg, custom = calc.write(case['calc'], lib)
        calc.execute(case['calc'], lib, 'first', prepared=(cfg, custom))
        # the configuration is read from its file
        cfg = json.loads(Path('config.json').read_text())
        for k in case['forms']:
            try:
                FORMS[k](cfg, custom)
            except KeyError:
                continue
            done.append(k)
        if not done:
            raise Discard
        Path('config.json').write_text(json.dumps(cfg))
        calc.execute(case['calc'], lib, 'second', prepared=(cfg, custom))
        exp = contents(Path('first'))
        same(contents(Path('second')), exp, 'as ' + ', '.join(done))
    return {'nontrivial': len(exp) > 3 and len(done) > 1, 'tags': sorted(done)}


SUBS = [Sub('forms', forms(), run_forms, 40, 1500),
        Sub('script', cases(), run_script, 60, 1500),
        Sub('methods', methods(), run_methods, 30, 500),
        Sub('skipped', skips(), run_skipped, 30, 300),
        Sub('refused', flawed(), run_refused, 60, 500)]
