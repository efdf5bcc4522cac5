"""Source of properties.jsonl and MANIFEST.json: python3 -m pbt.gen_meta"""

P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, note,
         observe=None, state=None):
    P[pid] = {
        'title': title, 'statement': ' '.join(statement.split()),
        'over': over, 'text': ' '.join(text.split()), 'why': ' '.join(why.split()),
        'files': files, 'mechanism': mechanism, 'note': ' '.join(note.split()),
        'observe': observe, 'state': state,
    }


prop(
    'C01', 'Random variables follow their stated distribution and truncation',
    """Every supported random variable (normal in its parameter forms, lognormal, uniform,
    Weibull, multilinear CDF, empirical, multinomial, deterministic) maps probabilities to
    values and values to probabilities exactly as the stated distribution, renormalized
    between its optional one- or two-sided truncation limits, prescribes; the two maps are
    inverse and monotone.  Values never leave the limits, and limits without probability
    mass or invalid parameters are refused.  Scaling the parameters by a unit factor gives
    the distribution of the scaled variable.""",
    ['inputs', 'configurations'],
    """all families and parameter forms, scalar and vector-valued parameters, one- and
    two-sided truncation including limits outside of the support, negative means,
    probabilities from 0 to 1, positive scale factors""",
    """The tests compare a few parameter sets with stored numbers; they have no truncated
    lognormal with a limit below zero, no truncated uniform, no negative mean, and no
    inverse relation.""",
    ['pelicun/uq.py', 'pelicun/model/pelicun_model.py'],
    [{'name': 'distribution maps', 'where': 'pelicun/uq.py: RandomVariable classes'},
     {'name': 'scaling of parameters', 'where': 'pelicun/uq.py: scale_distribution'}],
    """Generated families, parameters, limits and probabilities against an independent
    reference (scipy distributions, own truncation), plus inverse, monotone and scaling
    relations. Assumes limits keep 1e-4 of the mass.""",
)

prop(
    'C02', 'Sampling designs: stratified, reproducible, independent and complete',
    """A Latin Hypercube design puts exactly one value in each of the N equal probability
    strata of every variable (in the middle of the stratum for the midpoint variant), a
    Monte Carlo design draws from the uniform distribution, and every variable of the set
    gets a sample of the requested size from its own distribution.  Variables without a
    stated correlation are independent, the same seed gives the same sample and a variable
    anchored to another one has the same probabilities as its anchor.""",
    ['inputs', 'configurations', 'histories'],
    'all sampling methods, sample sizes, seeds and mixes of variables, repeated generation',
    """The tests sample one or two variables with one seed and look at stored numbers;
    strata, independence and anchors hold only over whole designs.""",
    ['pelicun/uq.py'],
    [{'name': 'sample generation', 'where': 'pelicun/uq.py: RandomVariableRegistry'}],
    """Generated registries; strata are exact, uniformity and independence are tested at
    odds below 1e-9 for the seeds used.""",
)

prop(
    'C03', 'Correlated variables keep their marginals and get the stated correlation',
    """Variables in a correlated set keep their stated marginal distributions, and the
    correlation of their standard normal scores is the stated one, including perfectly
    correlated and singular matrices and overlapping groups of one to many variables.
    The probability of an axis-aligned box under the joint distribution equals the
    multivariate normal integral over the box in standard normal space, with absent limits
    meaning no limit, and the arguments of the caller stay as they are.""",
    ['inputs', 'configurations'],
    'positive semidefinite correlation matrices of 1 to 6 variables, marginals, boxes',
    """The tests use one 2x2 matrix with a loose visual tolerance and stored values of
    densities.""",
    ['pelicun/uq.py'],
    [{'name': 'correlation', 'where': 'pelicun/uq.py: RandomVariableSet.apply_correlation'},
     {'name': 'box probability', 'where': 'pelicun/uq.py: orthotope_density, '
      'mvn_orthotope_density'}],
    """Generated matrices and marginals; correlation is compared with its sampling error,
    box probabilities with independent integrals (2e-3 for three or more variables).""",
)

prop(
    'C04', 'Fitting recovers the distribution of the data',
    """Fitting a normal or lognormal family without limits returns the sample moments in
    the fitting space, and with truncation or detection limits returns parameters that are
    (nearly) the most likely ones given the data and the count of censored points.  The
    correlation estimate of joint data is the one of the standard normal scores; fitting to
    exact percentiles of a distribution returns that distribution.  Fitting does not alter
    the limits given by the caller.""",
    ['inputs'],
    'data sets of 1 to 3 variables, families, truncation and detection limits, percentiles',
    """The tests compare a few fits of fixed samples with stored values; they cannot tell
    whether the optimum of the likelihood is found for other data.""",
    ['pelicun/uq.py'],
    [{'name': 'maximum likelihood', 'where': 'pelicun/uq.py: '
      'fit_distribution_to_sample'},
     {'name': 'percentile fit', 'where': 'pelicun/uq.py: '
      'fit_distribution_to_percentiles'}],
    """Generated data sets; likelihood of the returned parameters against the best of an
    independent multi-start optimization, moments and percentiles exactly. Limits keep 10
    percent of the mass; a likelihood gap of 2e-3 per point is allowed.""",
)

prop(
    'C05', 'Units convert by their physical definitions and nothing else is converted',
    """Every supported unit has the value of its physical definition, so that converting
    between any two units of one dimension multiplies by the ratio of their definitions,
    and conversions invert and chain exactly.  Units of different dimensions and unknown
    units are refused, a quantity in front of a unit multiplies it, and units defined by
    the user are added to the default ones (or replace those of the same name) as written,
    while ambiguous or malformed unit tables are refused.""",
    ['inputs', 'configurations'],
    'all units of all dimensions, scalars, lists and arrays, unit strings, user unit tables',
    """The tests convert a handful of values between a handful of units.""",
    ['pelicun/base.py', 'pelicun/assessment.py', 'pelicun/settings/default_units.json'],
    [{'name': 'conversion', 'where': 'pelicun/base.py: convert_units'},
     {'name': 'unit table', 'where': 'pelicun/base.py: parse_units'}],
    """Generated pairs of all units against an independent table of definitions (1e-5), exact
    inverse and chain relations, and generated unit files with faults.""",
)

prop(
    'C06', 'Tables and their labels survive storage and loading',
    """A table that is saved in the units of the user and loaded again has the same labels,
    values in base units, and units, whether variables run along columns or rows, in files
    or in memory, and what is stored is the value in the stated unit.  Hierarchical and
    simple labels are inverses of each other, labels that are made unique keep their rows,
    texts for missing data are read as missing data, and scaling under conditions scales
    exactly the matching rows or columns.  No caller's table is altered, and sources that
    are not tables are refused.""",
    ['inputs', 'configurations'],
    'tables with 1 to 4 label levels, units on some variables, both orientations, files and '
    'frames',
    """The tests save and load fixed small tables; they do not load what they saved and had
    stored unscaled values as expected results.""",
    ['pelicun/file_io.py', 'pelicun/base.py'],
    [{'name': 'save and load', 'where': 'pelicun/file_io.py: save_to_csv, load_data'},
     {'name': 'labels', 'where': 'pelicun/base.py: convert_to_SimpleIndex, '
      'convert_to_MultiIndex, dedupe_index'}],
    """Generated tables, round trips and direct inspection of what is stored.""",
)

prop(
    'C07', 'Settings, path access and the log behave like their simple models',
    """Reading, writing and testing settings by path acts like a nested dictionary; values
    of the user always win over defaults, every missing value is filled with its default,
    and a dictionary is never merged with a value.  Every option of an analysis has the
    value of the user or the documented default whatever other analyses were set up before,
    and a seed fixes the random numbers.  Text parsing helpers follow their definitions, all
    messages reach the log in order, and each warning is issued once.""",
    ['histories', 'configurations', 'inputs'],
    'operation histories over nested settings, option sets, texts, and log operations',
    """The tests check single calls on fixed dictionaries.""",
    ['pelicun/base.py'],
    [{'name': 'path access', 'where': 'pelicun/base.py: get, update, is_unspecified'},
     {'name': 'defaults', 'where': 'pelicun/base.py: merge_default_config, Options'},
     {'name': 'log', 'where': 'pelicun/base.py: Logger'}],
    """Model-based histories against a nested dictionary and a list model of the log.""",
)

prop(
    'C08', 'Component quantities expand, convert and sample as the table states',
    """Each row of a component table stands for one performance group at every combination
    of its locations and directions (numbers, ranges, lists, all, top, roof; a missing
    direction is the first one), with its distribution and truncation limits converted from
    its own unit and its number of blocks.  The sampled quantities follow those distributions
    independently of each other and never leave their limits, and a saved quantity sample is
    in the units of the user and loads back the same.  Locations, directions, units and
    families that cannot be understood are refused.""",
    ['inputs', 'configurations'],
    'component tables of 1 to 4 rows with repeated components and mixed units, 1 to 12 '
    'stories, tables in memory and files, sample sizes and seeds',
    """The tests load two tables and look at stored numbers; no test has rows of one
    component in different units or without a direction.""",
    ['pelicun/model/asset_model.py', 'pelicun/model/pelicun_model.py'],
    [{'name': 'loading', 'where': 'pelicun/model/asset_model.py: load_cmp_model'},
     {'name': 'sampling', 'where': 'pelicun/model/asset_model.py: generate_cmp_sample'},
     {'name': 'places', 'where': 'pelicun/model/pelicun_model.py: _get_locations, '
      '_get_directions, _convert_marginal_params'}],
    """Generated tables against an independent expansion; samples are checked stratum by
    stratum against reference distributions.""",
)

prop(
    'C09', 'Demand samples load, store and extend in the stated units',
    """A loaded demand sample has every demand under its clean three-part label (an event
    number and blanks are dropped) in base units, with missing units meaning base units,
    and without the realizations that are flagged as failed; saving it gives the values in
    the units of the user and loading that gives the same sample.  Adding a column adds
    exactly that column.  Residual drifts follow the FEMA P-58 rule from peak drifts: zero
    below yield, 0.3 times the excess up to four times yield, then the excess over three
    times yield, with independent lognormal scatter of 0.2 and never above the peak.""",
    ['inputs', 'configurations'],
    'samples of 1 to 5 demands with any subset of units, event numbers, blanks and failure '
    'flags, files and tables, added scalars and arrays, drifts around the rule changes',
    """The tests load a few files and check labels; failure flags, missing units and the
    residual drift rule are sampled at single points.""",
    ['pelicun/model/demand_model.py', 'pelicun/file_io.py'],
    [{'name': 'loading and saving', 'where': 'pelicun/model/demand_model.py: load_sample, '
      'save_sample, expand_sample'},
     {'name': 'residual drift', 'where': 'pelicun/model/demand_model.py: estimate_RID'}],
    """Generated samples against direct expectations; the scatter of residual drifts by
    goodness-of-fit tests at odds below 1e-9.""",
)

prop(
    'C10', 'Demand models: calibration, generation, cloning and storage',
    """Calibration assigns each demand the family, limits and additional uncertainty of the
    most specific settings in their stated unit, drops realizations outside of the limits,
    and yields the joint fit of the rest, empirical demands keeping their data.  Generated
    samples have the requested size, follow the marginal distributions and the stated
    correlation, reuse empirical data evenly or in the original order on request, and are
    reproduced by the seed and by a saved and reloaded model.  Cloned demands are copies of
    their original with its unit, and nothing else changes.""",
    ['inputs', 'configurations'],
    'raw data of 1 to 5 demands, calibration settings per type, models as tables and files, '
    'cloning plans, sample sizes and seeds',
    """The tests calibrate one sample with two settings and check that files exist; no test
    combines units with limits, empirical tables, or cloning with partial units.""",
    ['pelicun/model/demand_model.py'],
    [{'name': 'calibration', 'where': 'pelicun/model/demand_model.py: calibrate_model'},
     {'name': 'generation', 'where': 'pelicun/model/demand_model.py: generate_sample, '
      'clone_demands'},
     {'name': 'storage', 'where': 'pelicun/model/demand_model.py: save_model, load_model'}],
    """Generated data and settings; the expected treatment is resolved independently, samples
    are checked stratum by stratum (uncorrelated) or by distribution bounds (correlated).""",
)

prop(
    'C11', 'Components are evaluated at the right demand',
    """A component sees the demand of its demand type at its location plus the offset of
    its parameter table plus the configured default offset of that demand type.  When it is
    directional it sees the demand of its own direction; otherwise (and for direction 0) it
    sees the largest of all directions times the multiplier set for that demand type, or for
    ALL; with a demand expression it sees the value of the expression with X1, X2, ... being
    the demands of Demand, Demand2, ...  Damage states and loss functions use the same rule
    in every realization, in the stated units, and a demand that is not in the sample, or
    would be at a negative location, is refused with a ValueError.""",
    ['inputs', 'configurations'],
    'samples of 1 to 6 realizations and up to a dozen demands, 1 to 4 components with 1 to 3 '
    'performance groups, offsets from -1 to 2, several settings of default offsets and '
    'multipliers, 12 expressions with repeated demands',
    """The tests use one building with a fixed table; expressions, repeated demands, default
    offsets and directions that are missing are only sampled at single points.""",
    ['pelicun/model/demand_model.py', 'pelicun/model/damage_model.py',
     'pelicun/model/loss_model.py'],
    [{'name': 'required demands', 'where': 'pelicun/model/demand_model.py: '
      '_get_required_demand_type, _assemble_required_demand_data, _verify_edps_available'},
     {'name': 'use in damage', 'where': 'pelicun/model/damage_model.py: obtain_ds_sample'},
     {'name': 'use in losses', 'where': 'pelicun/model/loss_model.py: '
      'RepairModel_LF.calculate'}],
    """The demand is observed through deterministic capacities placed between the expected
    values and through loss functions that return their argument, and compared with an
    independent resolution of the rule.""",
)

prop(
    'C12', 'Damage states follow the limit state capacities',
    """In every realization a component block is in the damage state of the highest limit
    state whose capacity is below its demand, damage states being counted upwards over limit
    states, and in DS0 when there is none.  The share of realizations beyond a limit state
    is the probability that a capacity of the stated distribution (family, parameters,
    truncation, unit) is below the demand, all limit states of a block using one random
    draw and different blocks using different ones; limit states with several damage states
    pick them with their weights.  A realization depends on its own demand only, more
    demand never means a lower limit state with the same seed, and the same seed gives the
    same damage.""",
    ['inputs', 'configurations', 'sizes'],
    '1 to 3 components with 1 to 12 limit states, seven capacity families with truncation, 1 '
    'to 3 blocks, samples of 2 to 400, three sampling methods, batch sizes 1, 2 and 1000',
    """The tests check shapes and a few fixed seeds; shares of damage states, the common
    random draw of limit states and the numbering of states are properties of all inputs.""",
    ['pelicun/model/damage_model.py', 'pelicun/uq.py'],
    [{'name': 'capacities', 'where': 'pelicun/model/damage_model.py: _create_dmg_RVs, '
      '_generate_dmg_sample'},
     {'name': 'states', 'where': 'pelicun/model/damage_model.py: _evaluate_damage_state, '
      'probabilities, complete_ds_cols'}],
    """With latin hypercube sampling the shares are known to one realization; other methods
    and weights use exact binomial bounds; per-realization alignment is checked by mixing
    demands of runs with the same seed; numbering with deterministic capacities.""",
)

prop(
    'C13', 'Damaged quantities add up to the component quantities',
    """For each performance group and realization the quantity in a damage state is the
    quantity of the group times the share of its blocks that are in that state, so that the
    quantities of all damage states (including DS0) add up to the quantity of the group;
    realizations removed by a damage process are NaN.  Components without damage parameters
    have no damage and do not disturb the others, and the option to list all damage states
    only adds states with zero quantity.  A damage sample saves in the units of the user
    and loads back the same.""",
    ['inputs', 'configurations', 'sizes'],
    '1 to 4 components with up to 3 performance groups each, repeated places, 1 to 5 blocks, '
    'random or fixed quantities in four units, 2 to 30 realizations, batch sizes',
    """The tests check one example's totals; sums over blocks and states have to hold for
    every table.""",
    ['pelicun/model/damage_model.py', 'pelicun/file_io.py'],
    [{'name': 'quantities', 'where': 'pelicun/model/damage_model.py: '
      'prepare_dmg_quantities, complete_ds_cols, _get_pg_batches'},
     {'name': 'storage', 'where': 'pelicun/model/damage_model.py: save_sample, '
      'load_sample'}],
    """Quantities are recomputed block by block from the damage states and the quantity
    sample.""",
)

prop(
    'C14', 'Damage processes change exactly what they state',
    """Damage process tasks run in the order of the numbers they start with.  In every
    realization where the highest damage state among all blocks of the source component is
    the one stated, all blocks of the target component (or, for ALL, of every component
    other than the source) get the stated damage state, or become not available for NA; with
    -LOC both the trigger and the effect are restricted to one location at a time.  Nothing
    else changes, tasks on components that are absent are skipped, and events that cannot be
    understood are refused with a ValueError.""",
    ['inputs', 'histories', 'configurations'],
    'processes of 1 to 5 tasks numbered 1 to 14 with up to nine events, 1 to 4 components in '
    'up to three places, 1 to 12 realizations',
    """The tests run three fixed processes; the effect of sequences of tasks on each other
    can only be judged against a reference.""",
    ['pelicun/model/damage_model.py'],
    [{'name': 'order', 'where': 'pelicun/model/damage_model.py: DamageModel.calculate'},
     {'name': 'tasks', 'where': 'pelicun/model/damage_model.py: perform_dmg_task, '
      '_perform_dmg_event, _perform_dmg_event_loc'}],
    """The same seed without the process gives the state before it; a reference applies the
    tasks realization by realization.""",
)

prop(
    'C15', 'Damage parameter tables and capacity adjustments',
    """The first definition of a component in the list of parameter tables counts, with its
    own demand type, offset, direction flag and unit; components marked incomplete or not
    defined are reported as missing and get no damage, and tables passed in are not changed.
    Adjusting the capacities of a performance group gives exactly the damage of a component
    whose medians have the adjusted values, for the stated limit states (or ALL), for single
    operations and for lists with one operation per realization; families without a median
    are left alone, other groups are not affected, and malformed adjustments are refused.""",
    ['inputs', 'configurations'],
    '1 to 3 tables of up to 5 components in files and memory; adjustments of any subset of '
    'limit states of 1 to 3 components by *, /, + and - with 2 to 12 realizations',
    """The tests parse specifications and check stored parameters for one component; the
    effect on damage is not checked.""",
    ['pelicun/model/damage_model.py', 'pelicun/uq.py'],
    [{'name': 'tables', 'where': 'pelicun/model/damage_model.py: load_model_parameters, '
      'drop_unused_damage_parameters, remove_incomplete_components'},
     {'name': 'adjustments', 'where': 'pelicun/model/damage_model.py: _create_dmg_RVs, '
      '_handle_operation_list'}],
    """Adjusted runs are compared with runs of tables that have the adjusted medians and the
    same seed, realization by realization; tables by deterministic capacities.""",
)

prop(
    'C16', 'Losses of damage states follow the consequence functions',
    """Every damaged performance group loses, for every decision variable with a consequence
    for its damage state, its quantity times the consequence of one unit.  A consequence
    that depends on the quantity is interpolated (and held constant outside of its range) at
    the damaged quantity of the component, added up over locations when economies of scale
    apply across floors and over damage states when they apply across damage states;
    undamaged quantities do not count.  Units of quantities and decision variables are
    respected, quantities that are not available give no loss, nothing else is in the
    sample, and the damage sample is not changed.""",
    ['inputs', 'configurations'],
    '1 to 3 components with 1 to 3 performance groups and damage states, shared and missing '
    'consequences, constants and functions of 2 to 4 points, 4 decision variables in several '
    'units, all four settings of economies of scale, 1 to 6 realizations',
    """The tests cover one setting of economies of scale and a few hand-computed values.""",
    ['pelicun/model/loss_model.py', 'pelicun/model/pelicun_model.py'],
    [{'name': 'losses', 'where': 'pelicun/model/loss_model.py: RepairModel_DS.calculate, '
      '_calc_median_consequence'},
     {'name': 'units', 'where': 'pelicun/model/pelicun_model.py: '
      '_convert_marginal_params'}],
    """A reference computes every loss from the damaged quantities.""",
)

prop(
    'C17', 'Losses of loss functions follow the demand and the quantity',
    """A component whose consequence is a loss function loses, in every realization, its
    quantity (however many blocks it is split into) times the function at the demand of its
    own location and direction, for every decision variable the consequence is defined for.
    The loss map decides which function a component uses, several components can share one,
    damage of the component does not matter, and a demand outside of the domain of the
    function is refused with a ValueError.""",
    ['inputs', 'configurations'],
    '1 to 3 components with up to 3 performance groups of 1 to 3 blocks and random or fixed '
    'quantities, functions of 2 to 5 points of five demand types, 1 to 3 decision variables, '
    '1 to 6 realizations',
    """The tests map every component to itself and check one function.""",
    ['pelicun/model/loss_model.py'],
    [{'name': 'losses', 'where': 'pelicun/model/loss_model.py: RepairModel_LF.calculate, '
      '_calc_median_consequence'}],
    """A reference computes every loss from the demand and quantity samples.""",
)

prop(
    'C18', 'Uncertainty of consequences follows the stated distributions',
    """The loss of a damaged performance group divided by its quantity and median consequence
    follows the family and dispersion of the consequence (truncated at zero), stratified
    when the sampling method is; constant and deterministic consequences do not vary.
    Deviations of different groups, damage states, blocks and decision variables are
    independent, except that cost and time of the same damaged group have the configured
    correlation.  The same holds for loss functions.""",
    ['inputs', 'configurations', 'sizes'],
    'normal, lognormal, deterministic and constant consequences with dispersions from 0.05 to '
    '1.2, correlations from -0.6 to 0.9, three sampling methods, 120 to 1500 realizations',
    """The tests compare a few statistics of one example; distribution, stratification and
    independence of every pair of losses are not visible there.""",
    ['pelicun/model/loss_model.py', 'pelicun/uq.py'],
    [{'name': 'variables', 'where': 'pelicun/model/loss_model.py: '
      'RepairModel_DS._create_DV_RVs, RepairModel_LF._create_DV_RVs'}],
    """Every deviation is mapped to its probability by an independent distribution function;
    strata have to be filled exactly, other comparisons have bounds for false alarms below
    1e-9.""",
)

prop(
    'C19', 'Loss maps and tables select the consequence of every component',
    """The loss map (with rows added for components that are not in it, except excessiveRID,
    by the fill policy, or without exception by fill_all) decides the consequence of each
    component.  The first definition of a consequence and decision variable in the list of
    tables counts, as a whole and in its own unit, whether tables come from files or memory;
    consequences that are incomplete or not defined are reported as missing and give no
    losses, a table with two units of one decision variable is refused, and what is passed in
    is not changed.""",
    ['inputs', 'configurations'],
    '1 to 4 components, 1 to 4 tables of damage state and loss function consequences with '
    'overlapping definitions and incomplete rows, maps in files and memory, three policies',
    """The tests load two tables with one overlap and check stored frames, not which
    parameters losses are calculated with.""",
    ['pelicun/model/loss_model.py'],
    [{'name': 'map', 'where': 'pelicun/model/loss_model.py: add_loss_map'},
     {'name': 'tables', 'where': 'pelicun/model/loss_model.py: load_model_parameters, '
      '_load_from_data_path, RepairModel_Base.load_model_parameters'}],
    """Every definition has its own constant, so that the loss tells which one was used.""",
)

prop(
    'C20', 'Loss samples are stored in user units and scaled where stated',
    """Saving the loss sample gives every loss in the unit of its own parameters, with that
    unit, in memory and in files; loading a saved sample (with or without unique
    identifiers) gives back the same losses and units, and neither saving nor looking at the
    sample changes it.  Scaling consequences multiplies exactly the losses that match the
    decision variable, component, location and direction of each row (blank means any, A--B
    means the range), once per row; specifications without decision variables or factors are
    refused with a ValueError and change nothing.""",
    ['inputs', 'histories', 'configurations'],
    'samples of up to 3 components with damage states and 2 with loss functions in up to 4 '
    'decision variables and several units, specifications of 1 to 4 rows with any of the '
    'optional columns',
    """The tests save one sample in base units and scale a fixed frame.""",
    ['pelicun/model/loss_model.py', 'pelicun/file_io.py', 'pelicun/base.py'],
    [{'name': 'storage', 'where': 'pelicun/model/loss_model.py: LossModel.save_sample, '
      'RepairModel_DS.save_sample, load_sample'},
     {'name': 'scaling', 'where': 'pelicun/model/loss_model.py: consequence_scaling; '
      'pelicun/base.py: multiply_factor_multiple_levels'}],
    """The reference of the losses is converted and scaled by hand.""",
)

prop(
    'C21', 'Aggregated losses are the sums of the component losses',
    """The aggregated loss of every decision variable is, in every realization, the sum of
    the losses of all components, damage states and places calculated with damage states and
    with loss functions, in the user's unit.  Repair time is given as the total (sequential)
    and as the largest total of a location (parallel).  Every active decision variable with
    losses is reported once whatever its name, the others are left out, no losses at all give
    zeros, and the stored samples are not altered.""",
    ['inputs', 'configurations'],
    'loss samples of up to 5 components at up to 3 locations in up to 5 decision variables '
    'and several units, old and new form of the result',
    """The tests check one fixture of ones, in base units, with two decision variables.""",
    ['pelicun/model/loss_model.py'],
    [{'name': 'aggregation', 'where': 'pelicun/model/loss_model.py: LossModel.'
      'aggregate_losses, _aggregate_sample, sample'}],
    """Reference sums over plain dictionaries. A decision variable has one unit.""",
)

prop(
    'C22', 'Replacement is exclusive and triggered by loss thresholds',
    """Where a replacement consequence occurs, no other losses count in that realization.
    With replacement thresholds, replacement is triggered exactly in the realizations where
    the sum of the losses of some decision variable, without replacement, exceeds its ratio
    times the sampled replacement consequence; then the replacement consequences of all
    decision variables are assigned and all other losses are removed, and the decision
    variables that triggered it are reported.  Decision variables without a threshold or
    losses trigger nothing.  Invalid configurations are refused.""",
    ['inputs', 'configurations'],
    'loss samples with and without replacement in up to 5 decision variables, deterministic '
    'and random replacement consequences, thresholds for any of the decision variables',
    """The tests have one case with two thresholds and no replacement among the losses.""",
    ['pelicun/model/loss_model.py'],
    [{'name': 'exclusive', 'where': 'pelicun/model/loss_model.py: '
      '_make_replacement_exclusive'},
     {'name': 'thresholds', 'where': 'pelicun/model/loss_model.py: '
      '_apply_replacement_thresholds, _validate_input_replacement_thresholds'}],
    """Reference per realization from the sampled replacement consequences. Integer losses
    and limits make ties exact.""",
)

prop(
    'C23', 'Losses of several components are combined by their table',
    """A combination table replaces the losses of its components by the interpolated value of
    the table, for its decision variable and at every place (location, direction, identifier)
    where all of them have losses; the axes of the table follow the order in which the
    components are stated, for two and more components.  All other losses are added as they
    are, and thresholds see the combined losses.""",
    ['inputs', 'configurations'],
    'tables of 2 or 3 components with different axes that are not symmetric, several tables '
    'and decision variables, places with some of or more than the components',
    """The tests have one symmetric table of two components at one place.""",
    ['pelicun/model/loss_model.py'],
    [{'name': 'combination', 'where': 'pelicun/model/loss_model.py: '
      '_apply_loss_combinations, _loss_combination_add_combinable, '
      '_deconstruct_loss_combination_arrays'}],
    """Own multilinear interpolation. No component is in two tables of a decision
    variable.""",
)

prop(
    'C24', 'Whole assessments are reproducible and can be continued from storage',
    """With the same inputs, settings and seed, an assessment from demands to aggregated
    losses gives the same samples in every stage: when it is repeated in the same process, in
    another process with other string hashes and other global random numbers, and when its
    tables are in files instead of memory.  Its input tables are not changed.  Another seed
    gives other demands.  Continuing from stored samples of demands, components or damage
    gives the results of the whole run, and the methods of Assessment that combine steps give
    the results of the steps.""",
    ['inputs', 'configurations', 'histories'],
    'assessments with up to 4 components of all kinds, 3 floors, correlated and truncated '
    'demands, residual drifts, cloning, damage processes, capacity adjustments, random '
    'consequences and replacement thresholds',
    """The tests run each example once, in one process, and compare single values at most.""",
    ['pelicun/assessment.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
     'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/base.py'],
    [{'name': 'random numbers', 'where': 'pelicun/base.py: Options.seed, rng; '
      'pelicun/uq.py: RandomVariableRegistry'},
     {'name': 'stages', 'where': 'pelicun/model: generate_sample, calculate, load_sample, '
      'save_sample of all models'}],
    """Two processes per case. Continued runs start from the state of the random numbers of
    the whole run. The component model is loaded again, as samples have no blocks.""",
)

prop(
    'C25', 'Results do not depend on the units of the inputs',
    """Stating demands, component quantities, capacities, loss function demands,
    consequences and their quantities in any other suitable units, including units defined by
    the user, changes none of the samples of demands, components, damage and losses in base
    units, and the aggregated losses only by the unit they are reported in.""",
    ['inputs', 'configurations'],
    'the assessments of C24, with an independent choice of the unit of every table entry',
    """The examples of the tests are stated in one set of units each.""",
    ['pelicun/assessment.py', 'pelicun/base.py', 'pelicun/file_io.py',
     'pelicun/model/pelicun_model.py', 'pelicun/model/demand_model.py',
     'pelicun/model/asset_model.py', 'pelicun/model/damage_model.py',
     'pelicun/model/loss_model.py'],
    [{'name': 'conversion', 'where': 'pelicun/model/pelicun_model.py: '
      '_convert_marginal_params; pelicun/model/loss_model.py: convert_loss_parameter_units; '
      'pelicun/file_io.py: load_data, save_to_csv'},
     {'name': 'unit tables', 'where': 'pelicun/base.py: parse_units; '
      'pelicun/assessment.py: AssessmentBase.__init__'}],
    """Metamorphic: two runs with the same seed. A tenth of the realizations may fall on the
    other side of a capacity by rounding.""",
)

prop(
    'C26', 'Library updates install exactly the requested version',
    """After a successful update of the damage and loss model library (release, tag, latest or
    commit; cached or not; newer, older or on another branch; from the command line or the
    function) the list of models and every file in it have the content they have in that
    version, whatever happened before: failed downloads, updates interrupted at any point,
    damaged records of earlier downloads.  Requests for versions that do not exist change
    nothing, failures raise RuntimeError, the list of files is not present before a first
    installation is complete, so an interrupted first use is repeated.  Cached updates do not
    download unchanged, intact files again.  Versions are checked once per day, and available
    updates are reported to the user.""",
    ['inputs', 'histories', 'crash_points'],
    'commit histories with branches, renames and large changes, light and annotated tags, up '
    'to 10 operations, HTTP errors, dropped and truncated answers, crashes at any line',
    """The tests mock the downloads, the files and the records of earlier downloads; no test
    runs two updates after each other or stops one.""",
    ['pelicun/tools/dlml.py', 'pelicun/cli.py'],
    [{'name': 'updates', 'where': 'pelicun/tools/dlml.py: download_data_files, '
      '_get_changed_files, _resolve_version_to_commit_sha, load_cache, save_cache'},
     {'name': 'first use and daily check', 'where': 'pelicun/tools/dlml.py: check_dlml_data, '
      'check_dlml_version'}],
    """The updates talk to a server on the loopback network that plays the part of GitHub.
    Files damaged by the user are not repaired by a cached update to the recorded commit.""",
)

prop(
    'C27', 'Regional simulations treat every building on its own',
    """In a regional simulation every building has, for every intensity measure and
    realization, the mean of the values at its nearest grid points weighted by the inverse
    of the squared distance, under the label and in the unit of that measure, whatever the
    order of measures, columns, grid points and buildings.  It is damaged as the archetype
    its configuration assigns to it at its own intensity, and loses what the consequence
    of its archetype (or of its occupancy class in the Hazus earthquake method) states:
    nothing when it is not damaged or the damage state has no consequence.  Realizations are
    repeated in their order when more are requested than available.  The filter selects the
    stated numbers and ranges, results are in the order of the inventory for any number of
    buildings, and unknown buildings, malformed filters and missing intensity measures are
    refused with a ValueError.  Resampling among neighbors picks whole realizations of a
    neighbor with these weights.""",
    ['inputs', 'configurations'],
    """grids of 2 to 7 points, 1 to 7 and more than 1000 buildings, both methods of loss
    calculation, subsets and orders of intensity measures in all units, filters, numbers of
    samples and realizations, function and command line""",
    """The existing tests of the regional simulation need a downloaded library, and count
    files and rows only; swapped intensity measures, buildings in the wrong order, or
    undamaged buildings cannot be seen.""",
    ['pelicun/tools/regional_sim.py', 'pelicun/tools/NNR.py', 'pelicun/auto.py',
     'pelicun/cli.py'],
    [{'name': 'regional simulation', 'where': 'pelicun/tools/regional_sim.py: regional_sim, '
      'process_buildings_chunk'},
     {'name': 'spatial interpolation', 'where': 'pelicun/tools/NNR.py: NNR'}],
    """Generated regions with a library of archetypes of known capacities, against a direct
    calculation for each building; exact for weighted means, damage and losses. Capacities
    and consequences without uncertainty, one component per building.""",
)

prop(
    'C28', 'Calculations save exactly the requested results',
    """A calculation leaves exactly the requested results in its output directory: the
    samples, statistics, grouped and aggregate results that the configuration asks for, in
    the requested formats, and always the summary; results of earlier calculations under
    these names are gone and other files stay.  Every file holds the results of the
    calculation under their labels: in the units it states, with the damage of colocated
    components added up and damage states condensed to the governing one when requested,
    and missing results (after a damage process) kept apart from zeros.  Statistics are
    those of the sample, JSON and CSV files tell the same, numbers are numbers.  The summary
    has the aggregate losses, collapse and irreparable damage of every realization.  Neither
    the configuration nor the input files are changed, and a calculation gives the same
    results whatever the process calculated before.""",
    ['inputs', 'configurations', 'histories'],
    """whole calculations (see C29) with every combination of requested outputs, formats and
    settings, with earlier results in the directory, and after other calculations""",
    """The tests of the calculations need a downloaded library, run a few configurations,
    and do not look into the files.""",
    ['pelicun/tools/DL_calculation.py', 'pelicun/base.py'],
    [{'name': 'outputs', 'where': 'pelicun/tools/DL_calculation.py: _demand_save, '
      '_asset_save, _damage_save, _loss_save, _result_summary, _summary_save'},
     {'name': 'formats', 'where': 'pelicun/tools/DL_calculation.py: convert_df_to_dict, '
      '_create_json_files_if_requested, _remove_csv_files_if_not_requested, '
      '_remove_existing_files'}],
    """Against the samples in memory at the end of the calculation (the subject of C29);
    exact up to the printed digits.""",
)

prop(
    'C29', 'Calculations follow their configuration',
    """The results of a calculation are those of the method its configuration states.
    Demands are the realizations of the table (in its units, or in the units that follow
    from the unit of length) that satisfy the collapse limits, in their order when they are
    coupled, resampled from them otherwise, with residual drifts inferred on request.
    Components have the stated quantities at the stated places ("all" stories included), and
    the parameters of the last database that has them: those of the user take precedence
    over those of the library.  Collapse and irreparable damage follow their fragilities at
    every story or for the building, and the chosen damage process is applied, with the
    stated scaling of capacities, offsets and multipliers of demands.  Losses
    follow the automatic or the user-defined loss map, replacement has the stated or the
    default parameters and takes the place of repair (unless the map has other consequences
    of collapse or irreparable damage), losses of wind and flood are combined on request, only the chosen decision variables are
    assessed, and the summary reports these losses, collapse and irreparable damage of every
    realization, in the units of the consequences.""",
    ['inputs', 'configurations'],
    """configurations of up to 3 stories, 4 types of demands, 4 components with parameters in
    three databases, 7 damage processes, 3 decision variables, numbers as text""",
    """The tests of the calculations need a downloaded library, run a few configurations,
    and compare nothing with an independent calculation.""",
    ['pelicun/tools/DL_calculation.py', 'pelicun/assessment.py'],
    [{'name': 'calculation', 'where': 'pelicun/tools/DL_calculation.py: run_pelicun, '
      '_parse_config_file'},
     {'name': 'steps', 'where': 'pelicun/assessment.py: DLCalculationAssessment'}],
    """Against a direct calculation from the configuration; exact, because parameters have
    no uncertainty. Calibrated demands are the subject of C04 and C06.""",
)

prop(
    'C30', 'Scripted configurations equal explicit ones; unusable ones are refused',
    """A configuration without damage and loss settings is completed by the script of its
    method, or of the user: the script gets the information of the asset, the demand file and
    the number of realizations, and the calculation gives the results that the configuration
    of the script gives when it is written out with the components of the script, the demand
    file, the number of realizations, coupled or lognormal demands as chosen, the options of
    the asset where the script has none, and the detailed or the lean set of results without
    those that the asset does not need. With several methods, components and databases are
    put together and the losses are combined. The completed configuration is saved, and
    gives the same results when it is run. A script can ask for no calculation. Configurations
    that cannot be run (without sample size, method of residual drifts, parameters of
    collapse or irreparable damage, process, asset, or with the wrong kind of values) are
    refused with an error that says so, and in both cases earlier results are kept. Earlier names
    of settings (BldgRepair, databases) and equivalent forms of values (text or number,
    sample size in either place) give the same results.""",
    ['inputs', 'configurations'],
    """the configurations of C29 and hurricane calculations turned into scripts of library
    methods and of the user, run as a function and as a program, and 18 kinds of flaws""",
    """The tests of scripts need a downloaded library and only check that a run finishes.""",
    ['pelicun/tools/DL_calculation.py', 'pelicun/auto.py'],
    [{'name': 'scripts', 'where': 'pelicun/tools/DL_calculation.py: _parse_config_file; '
      'pelicun/auto.py: auto_populate'},
     {'name': 'validation', 'where': 'pelicun/tools/DL_calculation.py: _parse_config_file; '
      'pelicun/settings/input_schema.json'}],
    """Differential: all files of results of the scripted and of the explicit calculation
    are compared to the last digit.""",
)

prop(
    'C31', 'Default libraries are used exactly as their files',
    """A reference to default data (PelicunDefault/METHOD/FILE, or an earlier name of a file
    of the library) is the file of that method in the installed library: the tables and the
    metadata read through it are those of the file, and using it gives the damage and the
    losses that using the file does, alone or in a list with files and tables of the user,
    in which the first source that defines a component is the one that counts. Everything
    that is not such a reference is used as it is, and unknown methods and files are refused.
    Databases that a calculation lists by name count from the last to the first, after the
    database of the user; methods without the file are left out, methods without consequence
    functions are used with their loss functions, and a folder of the user that is not
    specified is refused. Water networks have an aggregate component instead of collapse.""",
    ['inputs', 'configurations'],
    """libraries with up to 5 of the 13 methods and 3 kinds of files, up to 2 sources of the
    user, all earlier names, lists in any order""",
    """The tests need a downloaded library and use three references.""",
    ['pelicun/file_io.py', 'pelicun/assessment.py', 'pelicun/model/damage_model.py',
     'pelicun/model/loss_model.py'],
    [{'name': 'references', 'where': 'pelicun/file_io.py: substitute_default_path; '
      'pelicun/assessment.py: get_default_data, get_default_metadata'},
     {'name': 'databases', 'where': 'pelicun/assessment.py: DLCalculationAssessment.'
      'calculate_damage, load_consequence_info'}],
    """Exact: every source has its own numbers, so damage and losses tell where the
    parameters come from.""",
)


prop(
    'C32', 'Inputs without a meaning are refused',
    """Inputs that cannot be interpreted are refused with the documented kind of error (wrong
    values, wrong types, unsupported) when they are given or used, and never give results;
    the same inputs without the flaw are accepted. This holds for random variables (points of
    a multilinear CDF that do not start at 0, end at 1 or increase strictly, probabilities
    above one, truncation limits where they are not supported or of another shape, parameters
    for another number of realizations, a zero mean with a coefficient of variation, unknown
    families, sampling before uniform values are set), for fitting them (data outside the
    truncation limits, unknown families, values that are not finite), and for the models of an
    assessment: demands of an unknown kind or unit or that are adjusted before they exist;
    component units, component and loss samples with labels of another number of levels;
    damage parameters that are not limit states or need demands (type, location, direction)
    that are not available; demand expressions with other characters; capacity adjustments
    with an unknown operation, limit state or number; loss maps and policies that are missing
    or unknown; loss parameters of no known kind, with inconsistent units for one decision
    variable, or of an unknown family; damage and demand samples of different sizes;
    combinations and replacements of losses for inactive variables, with the wrong types or
    without a required variable; and scale factors without value or decision variable.""",
    ['inputs'],
    """13 kinds of flaws of random variables with generated parameters, and 35 kinds of
    flaws put into generated assessments, with tables in memory and in files""",
    """The tests raise a part of the errors, each with one input.""",
    ['pelicun/uq.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
     'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py'],
    [{'name': 'random variables', 'where': 'pelicun/uq.py: classes of random variables, '
      'fit_distribution_to_sample, fit_distribution_to_percentiles, rv_class_map'},
     {'name': 'models', 'where': 'pelicun/model/*.py: load_*, calculate, '
      'consequence_scaling, aggregate_losses'}],
    """The call must end with one of the documented exception types; the assessment without
    the flaw must run.""",
)

prop(
    'C33', 'Results depend on the current inputs, not on earlier calculations',
    """An assessment object can be used again after its inputs change: demands that are loaded,
    generated or calibrated again, other component models and samples, other options, and
    repeated calculations of damage and losses.  Each step gives exactly the result that a new
    assessment gives for the inputs the step uses, whatever was calculated before on the same
    object or on other objects, and a step changes no results but its own: demands, component
    quantities, damage and losses that it only uses stay as they were.  When nothing of a kind
    is left (no loss functions, no damage), no earlier result of that kind remains.""",
    ['inputs', 'histories', 'configurations'],
    """histories of 6 to 20 steps on generated assessments with up to 4 components, in two
    sample sizes: demands from a model, again, calibrated and stored; component models with a
    part of the components and other blocks; damage with any batch size, process and
    adjustment; losses, scale factors, aggregation, damage samples stored and loaded, changes
    of six options, and other assessments in between""",
    """The tests calculate each stage once per assessment object.""",
    ['pelicun/assessment.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
     'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/base.py'],
    [{'name': 'stages', 'where': 'pelicun/model: load_model, generate_sample, '
      'calibrate_model, load_cmp_model, generate_cmp_sample, calculate, '
      'consequence_scaling, aggregate_losses'}],
    """Every result is compared with the same steps on a new assessment, without those the
    result does not depend on. Parameter tables are loaded once; the seed is set before each
    step.""",
)
