"""Writes properties.jsonl and MANIFEST.json from one list (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, na=None, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim,
                  na=na, note=note, observe=observe))


M, SB, HI = 'src/nempy/markets.py', 'src/nempy/spot_market_backend/', 'src/nempy/historical_inputs/'
TESTS = 'The tests dispatch a few fixed markets with fixed numbers'

prop('C01', 'Regional energy balance',
     'In every dispatch of a market with hard demand constraints, each region\'s generation minus scheduled load, plus interconnector '
     'inflow minus outflow (each scaled by its own end\'s loss factor), minus that region\'s share of interconnector losses, equals the '
     'demand set for the region; and every dispatch that balances all regions within the other limits is allowed.',
     ['inputs', 'configurations', 'histories'],
     'every bid stack, demand, flow limit, marginal loss factor, loss function and loss share; every order of input rows; inputs '
     'superseded by later ones',
     TESTS + ', so a wrong sign, region or share that cancels for those numbers is not seen.',
     [M, SB + 'market_constraints.py', SB + 'interconnectors.py', SB + 'variable_ids.py', SB + 'solver_interface.py'],
     [('energy bids mapped to regional balance rows', SB + 'variable_ids.py: bids'),
      ('flow and loss variables mapped to regional balance rows', SB + 'interconnectors.py'),
      ('demand right hand side', SB + 'market_constraints.py: energy')])
prop('C02', 'Dispatch within offered volume, capacity and forecast limits',
     'Every unit is dispatched, per dispatch type and service, between zero and the volume it offered; where a bid capacity limit or an '
     'intermittent generation forecast is set, its energy dispatch on that side does not exceed it. Any dispatch inside all these '
     'limits is allowed: nothing else is constrained by setting them.',
     ['inputs', 'configurations', 'histories'],
     'every volume (also below the smallest volume kept), capacity and forecast; generators, loads and bidirectional units; 1..10 bands',
     TESTS + '; limits on one side of a bidirectional unit or on a unit with dropped bands are not reached.',
     [M, SB + 'unit_constraints.py', SB + 'variable_ids.py'],
     [('bid bounds', SB + 'variable_ids.py: bids'), ('capacity', SB + 'unit_constraints.py: capacity'),
      ('mapping of limits to bids', M + ': set_unit_bid_capacity_constraints, '
       'set_unconstrained_intermittent_generation_forecast_constraint')])
prop('C03', 'Ramp limits of generators and loads',
     'The energy dispatch of a generator or load lies between its initial output less, and plus, its ramp rate times the interval '
     'length, using the lower of the offered and the telemetered rate where one is given. In the fast start runs, units still in the '
     'start-up modes are exempt and a unit that left mode two within the interval ramps from its minimum loading over the time since. '
     'Nothing tighter is imposed.',
     ['inputs', 'configurations', 'histories'],
     'every initial output, rate, telemetered rate (or none), interval length, fast start mode and run type',
     TESTS + '; combinations of run type, mode and missing telemetry are not enumerated.',
     [M, SB + 'unit_constraints.py', SB + 'ramp_rate_processing.py'],
     [('composite rates and exempt units', SB + 'ramp_rate_processing.py'), ('ramp rows', SB + 'unit_constraints.py: ramp_up, ramp_down')])
prop('C04', 'Bidirectional units ramp through zero',
     'The net output of a bidirectional unit stays within what it can reach in the interval from its initial output: moving on the load '
     'side at the load side\'s rates and on the generation side at the generation side\'s rates, and never faster than a telemetered rate. '
     'Every net output inside that range (within its bids) is allowed.',
     ['inputs', 'configurations', 'histories'],
     'every initial net output of either sign, every pair of rates per side (zero included), telemetered rates present or absent',
     TESTS + '; the crossing point depends on four rates and the initial output.',
     [M, SB + 'unit_constraints.py', SB + 'ramp_rate_processing.py'],
     [('reachable range', SB + 'ramp_rate_processing.py'), ('bidirectional ramp rows', SB + 'unit_constraints.py')])
prop('C05', 'Fast start inflexibility profiles',
     'A unit given a fast start profile is off in modes zero and one, follows the straight line from zero to its minimum loading in mode '
     'two, is at least at its minimum loading in mode three, and at least on the line from minimum loading to zero in mode four. Units '
     'without a profile are not affected, and removing the constraints removes all of this.',
     ['inputs', 'histories'],
     'every mode, time in mode, mode length and minimum loading; constraints set, re-set and removed',
     TESTS + ' for each mode.',
     [M, SB + 'unit_constraints.py'],
     [('profile rows per mode', SB + 'unit_constraints.py: fast_start_*'), ('removal', M + ': remove_fast_start_constraints')])
prop('C06', 'FCAS dispatch stays inside the trapeziums',
     'For every unit and contingency service, dispatch in that service together with energy and regulation stays inside the offered '
     'trapezium (upper and lower slopes, maximum availability); for every regulation service, dispatch together with energy stays inside '
     'the regulation trapezium. A bidirectional unit is measured by its net output, and no dispatch inside the trapeziums is excluded.',
     ['inputs', 'configurations', 'histories'],
     'every trapezium, any subset of services offered, generators, loads and both sides of bidirectional units',
     TESTS + '; missing regulation offers and bidirectional sides multiply the shapes.',
     [M, SB + 'fcas_constraints.py', SB + 'unit_constraints.py'],
     [('joint capacity', SB + 'fcas_constraints.py: joint_capacity_constraints'),
      ('energy and regulation', SB + 'fcas_constraints.py: energy_and_regulation_capacity_constraints'),
      ('maximum availability', M + ': set_fcas_max_availability')])
prop('C07', 'Energy and regulation respect telemetered ramping together',
     'Energy plus raise regulation, and energy minus lower regulation (the reverse for loads, net of both sides for bidirectional units), '
     'stay within what the telemetered ramp rates allow from the initial output in the interval. In the fast start runs units in the '
     'start-up modes are exempt and a unit that left mode two ramps from minimum loading; nothing tighter is imposed.',
     ['inputs', 'configurations', 'histories'],
     'every initial output, telemetered rate, interval length, fast start mode and subset of regulation services offered',
     TESTS + '.',
     [M, SB + 'fcas_constraints.py', SB + 'ramp_rate_processing.py'],
     [('joint ramping rows', SB + 'fcas_constraints.py: joint_ramping_constraints_reg')])
prop('C08', 'Ancillary service requirements and generic constraints are met',
     'Each FCAS requirement set holds with its sense over the dispatch of its service summed over its regions, and each generic '
     'constraint holds with its sense and right hand side over the unit, region and interconnector terms linked to it with their '
     'coefficients (load sides of bidirectional units negative, links of a pair scaled by their factor). No dispatch meeting them all is '
     'excluded.',
     ['inputs', 'configurations', 'histories'],
     'every requirement, coefficient and right hand side; sets over any regions and services; terms of all three kinds in one set; terms '
     'linked to a requirement set',
     TESTS + ' with one or two sets.',
     [M, SB + 'market_constraints.py', SB + 'solver_interface.py', SB + 'variable_ids.py'],
     [('requirement rows', SB + 'market_constraints.py: fcas'), ('generic terms', M + ': link_*_to_generic_constraints'),
      ('terms joined to rows', SB + 'solver_interface.py: add_constraints')])
prop('C09', 'Soft constraints are violated at exactly their price',
     'Making a constraint soft with a violation cost never restricts dispatch: every dispatch within the remaining hard limits stays '
     'possible, and the cost the market minimises rises by exactly the violation cost times the amount by which each soft constraint is '
     'violated, and by nothing when it is met. The violation degree reported for a constraint set is the total amount violated.',
     ['inputs', 'configurations', 'histories'],
     'every family of constraint, a common cost or a cost per set, every amount of violation in either direction; a soft constraint '
     'later re-set as hard or soft',
     TESTS + '; one family and one violation at a time.',
     [M, SB + 'elastic_constraints.py', SB + 'solver_interface.py'],
     [('deficit variables', SB + 'elastic_constraints.py: create_deficit_variables'),
      ('making constraints soft', M + ': make_constraints_elastic'), ('reporting', M + ': get_elastic_constraints_violation_degree')])
prop('C10', 'Interconnector flow limits, loss interpolation and link direction',
     'Interconnector flows stay within their limits, the reported losses are the interpolation of the loss function between the break '
     'points at the reported flow, and of a pair of opposing links only one carries flow. Every flow within limits and break points, with '
     'its interpolated loss, is allowed.',
     ['inputs', 'configurations', 'histories'],
     'every flow limit, loss function, loss share and break point position (increasing)',
     TESTS + '; the segment used depends on the flow, and only a few flows are exercised.',
     [M, SB + 'interconnectors.py', SB + 'solver_interface.py'],
     [('loss variables and weights', SB + 'interconnectors.py'), ('special ordered sets', SB + 'solver_interface.py')])
prop('C11', 'The objective is the cost of the bids',
     'The market minimises exactly the sum, over all bids, of dispatched volume times bid price, where an energy price is referred to the '
     'regional reference node by dividing by the unit\'s loss factor and a load\'s bids count as negative cost; FCAS prices are not scaled. '
     'The reported objective value is that cost at the reported dispatch.',
     ['inputs', 'configurations', 'histories'],
     'every price, volume, loss factor, service, dispatch type and number of bands; re-set bids',
     TESTS + '; a wrong scaling only shows when it changes the merit order.',
     [M, SB + 'objective_function.py', SB + 'solver_interface.py'],
     [('bid costs', SB + 'objective_function.py: bids'), ('loss factors', SB + 'objective_function.py: scale_by_loss_factors'),
      ('objective assembly', M + ': dispatch')])
prop('C12', 'Tied energy bids share dispatch in proportion to volume',
     'With tie breaking on, energy bids of different units in one region and of one dispatch type whose prices at the regional reference node are equal are '
     'dispatched in proportion to their offered volumes, or the deviation is charged at the tie break cost; bids that do not tie are not affected.',
     ['inputs', 'configurations', 'histories'],
     'every volume, price and loss factor of up to six bids, any pattern of ties',
     TESTS + ' for one pair of bids.',
     [M, SB + 'unit_constraints.py'],
     [('tie detection and rows', SB + 'unit_constraints.py: tie_break_constraints'), ('soft tie breaks', M + ': set_tie_break_constraints')])
prop('C13', 'Prices are the marginal values of the market constraints',
     'The energy price reported for a region is the marginal value of its demand constraint and the FCAS price for a region and service '
     'is the sum of the marginal values of the requirement sets covering them, taken from a linear problem that agrees with the dispatched one: '
     'same bids, limits and costs, restricted only by the loss segments and link directions in use. That restriction keeps the dispatch found as a feasible point.',
     ['inputs', 'configurations'],
     'every solver answer (dispatch and marginal values), any number of regions and sets',
     TESTS + '; which segments stay in use depends on the flow found.',
     [M, SB + 'solver_interface.py'],
     [('pricing problem', SB + 'solver_interface.py: get_linear_model / disable_variables'),
      ('prices', M + ': get_energy_prices, get_fcas_prices')])
prop('C14', 'Over-constrained dispatch re-run relaxes only violated constraints',
     'When a market price breaches its limits and the re-run is enabled, prices are re-computed with the right hand side of each violated '
     'soft network or FCAS constraint moved just enough (violation plus a small margin) to be met, with all other constraints unchanged; when no price breaches '
     'a limit or nothing is violated the prices are those of the dispatch. Dispatch quantities are never changed by the re-run, and later dispatches of the market are not affected by it.',
     ['inputs', 'configurations'],
     'every solver answer, violation of either sign, price limits; generic and FCAS constraints',
     TESTS + ' of one violated constraint.',
     [M, SB + 'solver_interface.py'],
     [('re-run', M + ': dispatch, allow_over_constrained_dispatch_re_run')])
prop('C15', 'Reports agree with the dispatch',
     'The per region dispatch summary equals the sums over the dispatch of that region: unit dispatch, net interconnector inflow, '
     'interconnector and transmission losses, such that demand served = dispatch + inflow - losses. The FCAS availability '
     'reported for a unit and service is the most that its trapezium, ramping and regulation constraints leave at its energy dispatch.',
     ['inputs', 'configurations'],
     'every dispatch, flow, loss and trapezium; regions with and without interconnectors',
     TESTS + '.',
     [M],
     [('region summary', M + ': get_region_dispatch_summary'), ('availability', M + ': get_fcas_availability')])
prop('C16', 'Ill-formed inputs are rejected and well-formed ones accepted',
     'Every input table set on the market is checked: a missing required column, an unknown column, a wrong type, a repeated row, a '
     'missing, infinite or negative number where it is not allowed, or a value outside the allowed set raises an error instead of being '
     'used, and the market keeps its previous inputs; every table that meets the documented requirements is accepted.',
     ['inputs', 'configurations'],
     'every number in every column of every input table',
     'The tests try a few bad values per table.',
     [M, SB + 'dataframe_validator.py', SB + 'check.py'],
     [('schemas', SB + 'dataframe_validator.py'), ('validation calls', M + ': _validate_*')])
prop('C17', 'Generic constraint right hand sides are computed by AEMO\'s stack rules',
     'The right hand side computed for a generic constraint equals the value of its equation under the published rules: terms, operators, '
     'stack operators, multipliers, defaults for missing values, and nested groups.',
     ['inputs', 'programs'],
     'every value and multiplier, every operator at every stack depth used, groups up to two levels',
     'The tests evaluate single operators on fixed numbers.',
     [HI + 'rhs_calculator.py'],
     [('evaluation', HI + 'rhs_calculator.py: _rpn_calc, _resolve_equation')])
prop('C18', 'Changing an SPD value changes exactly the dependent right hand sides',
     'After the value of a SPD element is updated, every right hand side whose equation (directly or through nested generic equations) '
     'uses the element is computed with the new value and every other one is unchanged; and the list of constraints reported to depend on '
     'an element is exactly the constraints whose equation uses it, each once. A refused update changes nothing.',
     ['inputs', 'histories'],
     'every value, any sequence of two updates and queries',
     'The tests update one value.',
     [HI + 'rhs_calculator.py'],
     [('update', HI + 'rhs_calculator.py: update_spd_id_value'), ('dependents', HI + 'rhs_calculator.py: get_rhs_constraint_equations_that_depend_value')])
prop('C19', 'FCAS trapezium scaling keeps slopes and only shrinks',
     'Scaling an offered trapezium for telemetered regulation limits, telemetered ramp rates or an intermittent generation forecast moves its '
     'enablement limits, break points and maximum availability to the tighter of offered and telemetered value, keeps the slopes of its '
     'sides, and never enlarges it; offers without telemetry, other services and energy offers are unchanged.',
     ['inputs', 'configurations'],
     'every offered trapezium, telemetered limit, rate and forecast; any subset missing',
     'The tests scale a few trapeziums.',
     [HI + 'units.py'],
     [('scaling', HI + 'units.py: _scaling_for_agc_enablement_limits, _scaling_for_agc_ramp_rates, _scaling_for_uigf')])
prop('C20', 'FCAS offers are used only when their preconditions hold',
     'A FCAS offer is kept exactly when its maximum availability and some band are positive, the unit\'s energy capability reaches the '
     'enablement range, its initial output (to five decimals; for regulation of a bidirectional unit the range runs from the load side to '
     'the generation side) is inside the enablement range, and (for regulation) it is not off automatic control; energy offers are always '
     'kept, and price and volume offers remain matched.',
     ['inputs', 'configurations'],
     'every offer, capacity, initial output and control status; generators, loads and bidirectional units',
     'The tests check one precondition at a time on fixed offers.',
     [HI + 'units.py'],
     [('preconditions', HI + 'units.py: _enforce_preconditions_for_enabling_fcas')])
prop('C21', 'Historical unit data reach the market unchanged in meaning',
     'Loss factors are the product of the transmission and distribution factor (the secondary one for the generation side of a bidirectional '
     'unit), processed bids have the historical volumes and prices with the loss factor scaling undone, and ramp rates, initial outputs, '
     'capacities and forecasts are those of the source data for the right unit and dispatch type.',
     ['inputs', 'configurations'],
     'every number in the source tables; any mix of unit types; missing directions',
     'The tests use one archived interval.',
     [HI + 'units.py', HI + 'aemo_to_nempy_name_mapping.py'],
     [('unit data', HI + 'units.py: UnitData')])
prop('C22', 'Historical interconnector data reach the market unchanged in meaning',
     'Interconnector limits, regions, loss factors and availabilities are those of the source data with imports negative; the loss function '
     'is the integral of the loss factor equation (constant plus demand terms plus flow coefficient), and for market links it and its break '
     'points are oriented along the link.',
     ['inputs', 'configurations'],
     'every coefficient, demand, limit and flow; regulated and market interconnectors',
     'The tests use one archived interval.',
     [HI + 'interconnectors.py', HI + 'demand.py'],
     [('definitions and losses', HI + 'interconnectors.py: InterconnectorData, create_loss_functions')])
prop('C23', 'Dispatch case files are read faithfully',
     'Each value read from a dispatch case file (initial conditions, bids, forecasts, constraint sides, violation prices and totals, prices) is '
     'the value of the matching element for the matching unit, constraint or region, for any number of elements, with the non-intervention '
     'solution chosen and missing optional values reported as missing.',
     ['inputs', 'configurations'],
     'every number; one or several offers per unit and terms per constraint; optional elements present or not; intervention or not',
     'The tests read a few archived files.',
     [HI + 'xml_cache.py', HI + 'constraints.py'],
     [('readers', HI + 'xml_cache.py: XMLCacheManager.get_*'), ('constraint tables', HI + 'constraints.py: ConstraintData')])
prop('C24', 'Every dispatch interval maps to its own case file',
     'The case file used for an interval is the one named by the market day (starting 04:05) the interval belongs to and its number 001 to 288 in '
     'that day, for every date and time; the over-constrained variant is used exactly when only it is present.',
     ['inputs', 'configurations'],
     'every five minute interval of every date from 2001 to 2099, either, both or none of the files present',
     'The tests name a handful of intervals.',
     [HI + 'xml_cache.py'],
     [('names', HI + 'xml_cache.py: get_file_name')])
prop('C25', 'Fast start units move through their modes by elapsed time',
     'Over an interval a fast start unit stays or advances through modes one to four by exactly the elapsed time and its mode lengths, an uncommitted unit '
     'starts only if the unconstrained run dispatched it for energy, and the reported time in the end mode and time since mode two account for the whole interval.',
     ['inputs', 'configurations'],
     'every mode, time in mode, mode length (zero included) and unconstrained dispatch',
     'The tests follow a few archived units.',
     [HI + 'units.py'],
     [('mode update', HI + 'units.py: UnitData._update_modes')])
prop('C26', 'Sequential dispatch carries outputs into the next interval',
     'The ramp parameters built for the next interval have, for every unit in the ramp rate table, the rates given and, as initial output, the unit\'s energy '
     'dispatch in the last interval (net for bidirectional units), zero if it was not dispatched.',
     ['inputs', 'histories'],
     'every dispatch result and ramp rate table',
     'The tests use fixed tables.',
     ['src/nempy/time_sequential.py'],
     [('carry over', 'src/nempy/time_sequential.py: construct_ramp_rate_parameters, create_seed_ramp_rate_parameters')])
prop('C27', 'A market depends only on its current inputs',
     'The dispatch problem solved by a market depends only on the inputs last set: setting an input again replaces it and nothing else, in any order, '
     'and dispatching does not change later dispatches.',
     ['histories', 'inputs'],
     'every history of up to two settings of each input with dispatches in between, all numbers',
     'The tests set each input once.',
     [M, SB + 'solver_interface.py'],
     [('input registers', M + ': set_* methods'), ('assembly per dispatch', M + ': dispatch')])
prop('C28', 'The tables database holds the period and returns the records in force',
     'Populating the database for a period downloads, from the right monthly archives, everything the period needs and stores it once (intervention runs '
     'left out, repeated rows once, missing columns empty), or reports the archive it could not get; populating again changes nothing. For any interval of '
     'the period a query then returns exactly the records in force: the interval\'s own rows; each unit\'s last record started; the last version of the '
     'last effective date of each id, for interconnectors only those in use at the interval; the constraint terms of the version used at the interval, from '
     'the newest archive having them.',
     ['inputs', 'histories', 'fault_sequences'],
     'every period, date, version number, flag and value in the archives, any archive missing',
     'The tests query a few rows with fixed dates and do not download.',
     [HI + 'mms_db.py'],
     [('population', HI + 'mms_db.py: DBManager.populate, _download_to_df, set_data, add_data'), ('queries', HI + 'mms_db.py: get_data')])
prop('C29', 'Historical constraints and demand reach the market unchanged in meaning',
     'The right hand side, sense, terms and violation cost of every historical constraint, the FCAS requirements (one row per regional term, with the '
     'constraint\'s right hand side as volume), the constraints left once the FCAS ones are excluded, the violation prices and the regional '
     'demand are those of the source data, with services and senses translated to nempy\'s names.',
     ['inputs', 'configurations'],
     'every right hand side, coefficient, cost and demand; constraints with any mix of terms; every service',
     'The tests use one archived interval.',
     [HI + 'constraints.py', HI + 'demand.py', HI + 'loaders.py'],
     [('constraint tables', HI + 'constraints.py: ConstraintData'), ('demand', HI + 'demand.py: DemandData')])
prop('C30', 'The case file cache covers the populated period and is searched in order',
     'After populating the case file cache for a period every interval of the period (for whole months: from the first interval of the first month to the '
     'interval ending the last month) has its file in the cache, even if a download first answers with an error page. Searching months for violations '
     'returns the first intervals, in time order and no more than asked for, whose case file reports a positive violation, with exactly the kinds violated.',
     ['inputs', 'fault_sequences'],
     'every interval of every period of whole months; every violation volume',
     'The tests do not download and search one cached interval.',
     [HI + 'xml_cache.py'],
     [('population', HI + 'xml_cache.py: populate, populate_by_day, load_interval'), ('search', HI + 'xml_cache.py: find_intervals_with_violations')])

prop('C31', 'Only a proven optimum is reported as a dispatch',
     'A dispatch is reported exactly when the solver ends with a proven optimum of the market\'s problem. If the inputs leave no possible dispatch, or the '
     'solver ends in any other way (unbounded, stopped early with or without a solution, error), dispatch raises an error, whatever the search for the '
     'offending constraint finds, and a market not dispatched before then reports no dispatch and no cost.',
     ['inputs', 'fault_sequences'],
     'every ending of the solve and of the solves that look for the offending constraint; every market whose demand cannot be met',
     'The tests dispatch feasible markets.',
     [M, SB + 'solver_interface.py'],
     [('solve and its ending', SB + 'solver_interface.py: InterfaceToSolver.optimize, find_problem_constraint'), ('results', M + ': dispatch, get_unit_dispatch')])


BUILT = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(V, 'checks'))) if f[0] == 'c' and f[1:3].isdigit()]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                      hook_needed=None))) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in BUILT:
            c = '/opt/venv/bin/python run.py check %s ' % p['id']
            checks.append(dict(
                property=p['id'], quick_cmd=c + 'quick', thorough_cmd=c + 'thorough',
                technique='symbolic execution of the real nempy code (z3), counterexamples replayed on the real code',
                level='model_checking',
                level_note='All values of the symbolic inputs within the stated bounds, on the market shapes listed in the check; '
                           'floats as reals; the LP/MIP solver replaced by its contract (any answer within the model nempy '
                           'built); pandas trusted.' + p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'no check built yet'))
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import nempy, mip, pandas"', checks=checks,
                   not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
