NOT_APPLICABLE = []
R = "src/libecalc/common/utils/rates.py"
TIME = "src/libecalc/common/time_utils.py"
PROPS = [
 dict(id="C01", title="Calendar-day rates, stream-day rates and volumes convert consistently",
  statement="For any rates and any regularity between 0 and 1, a calendar-day rate equals the stream-day rate times the regularity, converting back returns the original rate wherever the regularity is not zero, and a stream-day rate is zero where the regularity is zero. The volume of a period is its calendar-day rate times the period's length in days, and a cumulative volume is the running sum of the period volumes. Every conversion keeps the periods, the unit (rate unit to matching volume unit) and the regularity.",
  quantifier=(["inputs"], "every rate, regularity in [0,1], strictly increasing time vector and number of periods"),
  why="Tests sample a few series with one or two regularities; a slip at zero regularity, in leap-year lengths or in one rate type passes them.",
  files=[R, TIME], mechanism=[("Rates.to_stream_day / to_calendar_day / to_volumes / compute_cumulative", R), ("TimeSeriesRate.to_calendar_day / to_stream_day / to_volumes", R)]),
 dict(id="C02", title="Resampling to a reporting frequency conserves what is reported",
  statement="Resampling rates or volumes to yearly or monthly periods gives every new period exactly the volume of the parts of the original periods it covers, with a regularity equal to calendar-day volume over stream-day volume (zero when nothing is produced). A plain value in force at the start of the new period is carried forward, and a boolean is true for a new period only if it is true for every original period it covers. The new periods are contiguous, start at the frequency's boundaries, and cover the original range when start and end are included; resampling to no frequency changes nothing.",
  quantifier=(["inputs", "configurations"], "every time vector, value series, rate type, reporting frequency and choice of including the start and end date"),
  why="The tests fix a handful of calendars where original dates coincide with boundaries; conservation for dates inside a reporting period is a statement over all time vectors.",
  files=[R, TIME], mechanism=[("TimeSeries.resample and overrides", R), ("resample_periods / create_start_and_end_dates_for_periods", TIME)]),
 dict(id="C03", title="Time series algebra keeps values aligned with their periods",
  statement="Adding, joining, slicing, indexing, filling and comparing time series always pairs the values (and regularities) of the same period: sums are period by period and preserve calendar-day volume even when regularities differ, joining adjacent series keeps time order, and slices return exactly the values of the requested periods. Series with different units or rate types are never added or joined, overlapping or gapped series are never merged, and a series is only built when it has exactly one value (and one regularity) per period.",
  quantifier=(["inputs"], "every pair of series, of any length, with any values, regularities, units and time vectors"),
  why="Alignment errors show up only for particular offsets, lengths or mixed regularities, of which the tests sample a few.",
  files=[R, TIME], mechanism=[("TimeSeries.extend/merge/for_period/for_periods/__getitem__/fill_values_for_new_periods", R), ("TimeSeriesRate.__add__/extend/merge/for_period/from_timeseries_stream_day_rate", R)]),

 dict(id="C04", title="Every instant belongs to one period and one temporal model",
  statement="A period is the half-open interval from its start up to, but not including, its end; containment, overlap and intersection of periods follow from that. The dates of a time vector give contiguous periods (optionally with one before and one after), the periods found inside a given period are exactly those that lie in it, and a date or sub-period is found in the one period that contains it. A model keyed by dates is in force from its date until the next date, none is in force before the first, dates out of order are refused, and restricting a dated model to a period leaves the same model in force at every instant of that period and none outside it.",
  quantifier=(["inputs"], "every time vector, every period and every instant, also at and around the boundaries"),
  why="Off-by-one errors at the boundary between two periods or for periods that extend beyond the time vector are not among the sampled dates.",
  files=[TIME, "src/libecalc/common/temporal_model.py"], mechanism=[("Period / Periods", TIME), ("define_time_model_for_period", TIME), ("TemporalModel", "src/libecalc/common/temporal_model.py")]),
 dict(id="C05", title="Unit conversions are exact and reversible",
  statement="Converting a value, a list, an array or a time series between two supported units multiplies (or shifts) every element by the physical factor and nothing else; converting back returns the original value, converting to the same unit changes nothing, and a conversion between unrelated units is refused. Rate units and volume units correspond one to one.",
  quantifier=(["inputs"], "every supported pair of units and every value"),
  why="A wrong factor in one rarely used direction, or one container type, is invisible to tests that convert another pair.",
  files=["src/libecalc/common/units.py"], mechanism=[("Unit.to / _type_handler / volume_to_rate / rate_to_volume", "src/libecalc/common/units.py")]),
 dict(id="C06", title="Expressions evaluate as documented",
  statement="An expression evaluates, period by period, to the value the documentation gives: parentheses first, then power (right to left), multiplication and division, addition and subtraction, and comparisons (giving 1 or 0), each level from left to right; a number is the same in every period, a reference is its time series, and division by zero gives zero. Multiplying two expressions multiplies their values whatever they contain. A malformed expression or an unknown reference is refused and never partly evaluated.",
  quantifier=(["inputs"], "every expression and every value of its variables in every period"),
  why="The tests evaluate a few dozen expressions; precedence and associativity errors need particular operator combinations.",
  files=["src/libecalc/expression"], mechanism=[("lexer", "src/libecalc/expression/expression_evaluator.py"), ("get_postfix / get_tree / Node.evaluate", "src/libecalc/expression/expression_tree.py"), ("Expression", "src/libecalc/expression/expression.py")]),
 dict(id="C07", title="Input series and expressions take their documented value in every period",
  statement="In every period a time series has the value its interpolation gives at the start of the period (the latest date for RIGHT, the next date for LEFT, linear between the two for LINEAR), zero before its first date, and after its last date the last value if extrapolated and zero otherwise, whatever the order of the rows in the file. A dated expression uses the expression in force and is zero before the first date; an expression with a condition is zero where the condition is false. Rates, powers and variables given per calendar day are divided by the regularity; negative rates and pressures that are in use, and regularities outside 0 to 1, are refused. The time vector is the ordered set of the dates within start and end, and the variables of a sub-period are those of the periods inside it.",
  quantifier=(["inputs", "configurations"], "every time series, time vector, interpolation, condition, regularity and dated expression"),
  why="Each rule has boundary cases (dates outside the series, equal dates, unordered rows, masked negatives) of which tests sample a few.",
  files=["src/libecalc/presentation/yaml/domain", "src/libecalc/presentation/yaml/mappers/variables_mapper", "src/libecalc/expression", "src/libecalc/domain/regularity.py"],
  mechanism=[("TimeSeries.fit_to_time_vector", "src/libecalc/presentation/yaml/domain/time_series.py"), ("TimeSeriesExpression / ExpressionTimeSeries*", "src/libecalc/presentation/yaml/domain"), ("get_global_time_vector, VariableProcessor", "src/libecalc/presentation/yaml/mappers/variables_mapper"), ("VariablesMap", "src/libecalc/common/variables.py"), ("Regularity", "src/libecalc/domain/regularity.py")]),
 dict(id="C08", title="A generator set burns the fuel its load requires and knows its capacity",
  statement="In every period the fuel of a generator set is that of the table in force at the power required of it: linear between the rows of the table in whatever order they are given, the fuel of the nearest end row outside it, and zero without load. The capacity margin is the largest power of the table in force minus the load, and a period is valid exactly when a table is in force and the margin is not negative. Fuel, power and margin are reported as stream-day rates with the installation's regularity; the produced power is the required power times one plus the cable loss. A generator set or fuel consumer whose fuel is not defined for its whole lifetime is refused.",
  quantifier=(["inputs", "configurations"], "every table, load, regularity, cable loss, dated model and time vector"),
  why="The tests use a few tables and loads; end rows, unordered tables, a table that starts late and a load at exactly the capacity are points among infinitely many.",
  files=["src/libecalc/domain/infrastructure/energy_components/generator_set", "src/libecalc/common/interpolation.py"],
  mechanism=[("GeneratorSetModel", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_model.py"), ("GeneratorSetEnergyComponent", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py")]),
 dict(id="C09", title="Emissions are the fuel burned times the factor in force",
  statement="In every period each emission of a fuel consumer or generator set is its fuel rate times the emission factor of the fuel in force in that period (kilograms to tons), and zero where the fuel in force does not emit it; every emission named by any of the fuels is reported for every period. Direct venting emits the given rate, and venting from loading and storage the oil rate times the factor; rates given per calendar day are divided by the regularity (zero where that is zero). All emissions are stream-day rates in tons per day that carry the regularity of their component.",
  quantifier=(["inputs", "configurations"], "every fuel rate, factor, regularity, change of fuel and time vector"),
  why="Emissions are what the tool is for; a shift by one period at a fuel change or a missed conversion in one rate type changes totals without failing the sampled cases.",
  files=["src/libecalc/domain/infrastructure/energy_components/fuel_model", "src/libecalc/domain/infrastructure/emitters", "src/libecalc/domain/infrastructure/energy_components/fuel_consumer"],
  mechanism=[("FuelModel.evaluate_emissions", "src/libecalc/domain/infrastructure/energy_components/fuel_model/fuel_model.py"), ("DirectVentingEmitter, OilVentingEmitter", "src/libecalc/domain/infrastructure/emitters/venting_emitter.py"), ("get_emissions", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py")]),
 dict(id="C10", title="Power, losses and validity add up from consumers to installations",
  statement="A consumer's energy usage and power are, period by period, those of its model in force (nothing, and valid, where none is in force), divided by one minus the power loss factor where one is given. The power required from a generator set is the sum of the power of its consumers in every period; cable loss applies only in periods whose category is power from shore. A result is valid exactly where it is a number and not a negative fuel rate, and an installation or model is valid in a period exactly when every component in it is. Operational settings are numbered from one, and zero where none applies.",
  quantifier=(["inputs", "configurations"], "every set of consumers, temporal models, loads, loss factors, validities and time vectors"),
  why="The sums and joins run over all consumers, models and periods; a dropped consumer or a result put in the wrong period needs a particular combination to show.",
  files=["src/libecalc/domain/infrastructure/energy_components", "src/libecalc/core/result/results.py", "src/libecalc/presentation/yaml/model.py"],
  mechanism=[("Context.get_power_requirement, YamlModel.get_validity", "src/libecalc/presentation/yaml/model.py"), ("ConcatenatedProperty", "src/libecalc/core/result/results.py"), ("ConsumerFunctionResult", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/consumer_function/results.py"), ("DirectConsumerFunction", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/consumer_function/direct_consumer_function.py")]),
 dict(id="C11", title="A consumer system runs the first setting with capacity and conserves its rate",
  statement="In every period a pump or compressor system uses the first operational setting that all its consumers can run, and the last one when there is none. With a crossover, the rate above a consumer's maximum is moved to the receiving consumer, only when the receiver's discharge pressure is at least the sender's, and the total rate of the system stays the same. Every consumer is run with the rate, pressures and density of the chosen setting of that period; the system's energy usage and power are the sums over its consumers with losses, and it is valid where all its consumers are. Settings that do not have one rate and pressure per consumer are refused.",
  quantifier=(["inputs", "configurations"], "every consumer behaviour, rate, pressure, density, crossover and number of periods"),
  why="Which setting is used depends on the combination of validities over consumers, settings and periods; tests sample a few fixed systems.",
  files=["src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system"],
  mechanism=[("ConsumerSystemConsumerFunction", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py"), ("get_operational_settings_number_used_from_model_results", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/utils.py")]),
 dict(id="C13", title="The LTP and STP exports report every volume once, under the right column",
  statement="Each column of the export holds, for every installation of its kind and every reporting period, the sum of the volumes of exactly the fuel, emission, storage, power and generation whose fuel, consumer, producer and emission category in force in that period match the column; the peak from shore is the highest value within the reporting period. Every volume is attributed once per period to the categories in force, reporting periods cover the whole lifetime, resampling conserves the volumes, and the written table has one row per period in time order with values to the stated precision.",
  quantifier=(["inputs", "configurations"], "every set of components, dated categories and fuels, volumes, time vectors and reporting frequencies"),
  why="The export is what is reported to authorities; category changes inside the lifetime, reporting periods that do not match the time vector and rarely used columns are not covered by the sampled models.",
  files=["src/libecalc/presentation/exporter", "src/libecalc/common/math/numbers.py"],
  mechanism=[("queries", "src/libecalc/presentation/exporter/queries.py"), ("InstallationExportable", "src/libecalc/presentation/exporter/infrastructure.py"), ("LTPConfig, STPConfig", "src/libecalc/presentation/exporter/configs/configs.py"), ("Numbers.format_to_precision", "src/libecalc/common/math/numbers.py")]),
 dict(id="C12", title="Emission intensity is the CO2 emitted over the hydrocarbons exported",
  statement="The emission intensity at the end of every period is the CO2 emitted up to then in kilograms over the hydrocarbons exported up to then, per Sm3 and per barrel of oil equivalent (6.29 per Sm3); with yearly results it is also given for each year on its own. It is not a number where nothing has been exported, and a model that emits no CO2 has no intensity and otherwise unaffected results. The written table has one row per period in order.",
  quantifier=(["inputs"], "every export and CO2 series, rate type, regularity, time vector and output frequency"),
  why="The tests compute one or two fixed cases; periods without export, first periods and regularities below one are not sampled.",
  files=["src/libecalc/domain/emission/emission_intensity.py", "src/ecalc_cli/emission_intensity.py"],
  mechanism=[("EmissionIntensity", "src/libecalc/domain/emission/emission_intensity.py"), ("EmissionIntensityCalculator", "src/ecalc_cli/emission_intensity.py")]),
 dict(id="C14", title="Results add up from components to installations to the asset, and are written as computed",
  statement="The fuel, mechanical and electrical power, emissions and export of an installation are in every period the sums over its components, and those of the asset the sums over its installations, each component counted once with the regularity of its installation; fuel and emissions are reported per calendar day, power per stream day, and accumulated values grow by the volume (or energy) of the period. Every component is reported once under its parent with its own rates and validity; every value of a pump, compressor, stage, turbine and system model is reported for the periods in which the model is in force, and requested pressures are those of the setting used. The written CSV and JSON files hold, for every component and reporting period, the mean rates and accumulated volumes of what the period covers.",
  quantifier=(["inputs", "configurations"], "every set of rates, regularities, validities, dated models, time vectors and reporting frequencies"),
  why="The result is what users read; a component left out of a total, a wrong regularity or a value shifted to another period or column shows only in particular combinations.",
  files=["src/libecalc/presentation/json_result", "src/libecalc/infrastructure/file_utils.py", "src/libecalc/domain/infrastructure/energy_components/installation", "src/libecalc/presentation/yaml/model.py"],
  mechanism=[("get_asset_result, InstallationMapper", "src/libecalc/presentation/json_result/mapper.py"), ("TabularTimeSeries.resample / to_dataframe", "src/libecalc/presentation/json_result/result/tabular_time_series.py"), ("get_result_output", "src/libecalc/infrastructure/file_utils.py")]),
 dict(id="C15", title="The delta profile is the changed model minus the reference model",
  statement="Comparing two models gives, for every component of either model and every period of their common time range (cut at the dates of both), the energy usage, power and every emission of the changed model minus those of the reference model, a component, emission or power that one of them lacks counting as zero; a period is valid if it is in both. Both models are given on the same periods with their own values, components whose units differ are reported as errors, and models without common time are refused.",
  quantifier=(["inputs", "configurations"], "every pair of results: calendars, components, emissions, values"),
  why="The delta profile has no tests of its own; differing calendars and components that exist in one model only are the point of the comparison.",
  files=["src/libecalc/presentation/simple_result"], mechanism=[("SimpleResultData.delta_profile", "src/libecalc/presentation/simple_result/simple.py")]),
 dict(id="C16", title="A turbine burns the fuel of its load, and limits the compressor it drives",
  statement="For every load a turbine's fuel is the energy per day over the heating value and the efficiency, which is linear in the load between the rows of its table; the load is the requested one after the adjustment, no load takes no fuel, and a load above the largest of the table is invalid. A turbine-driven compressor reports the turbine's fuel and load at the compressor's adjusted power and is valid where both are; its maximum rate is that of the compressor where the turbine can deliver the power, else the rate at which it just can.",
  quantifier=(["inputs", "configurations"], "every table, load, heating value, adjustment, compressor behaviour and number of periods"),
  why="The adjustments of turbine and compressor and the limits interact; tests use a turbine without adjustment.",
  files=["src/libecalc/domain/infrastructure/energy_components/turbine", "src/libecalc/domain/process/compressor/core/base.py"],
  mechanism=[("Turbine.evaluate", "src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py"), ("CompressorWithTurbineModel", "src/libecalc/domain/process/compressor/core/base.py")]),
 dict(id="C17", title="Tabulated and sampled models give the value of the table, and nothing outside it",
  statement="A tabulated consumer's energy usage is linear between the rows of its table, whatever their order and whatever the order of the variables, and invalid outside it. A sampled compressor gives the linear value inside its table; a rate or discharge pressure below the table is raised to it and a suction pressure above it lowered to it (recirculation and choking), otherwise the period is invalid; without rate it is off. A variable that is constant in the table is a limit. Its highest rate is that of the table where the pressures can be reached, else none. Power given beside fuel is reported at the fuel used. Each column of a file is the variable of its name, and a file with a value that is not a number, columns of different length or negative values is refused.",
  quantifier=(["inputs", "configurations"], "every table, order of rows and columns, operating point and number of periods"),
  why="A point outside the table, on its limit, or a table in an unusual order is not among the few points the tests sample.",
  files=["src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated", "src/libecalc/domain/process/compressor/core/sampled", "src/libecalc/common/interpolation.py", "src/libecalc/presentation/yaml/mappers/facility_input.py"],
  mechanism=[("TabularEnergyFunction", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_energy_function.py"), ("CompressorModelSampled", "src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py")]),
 dict(id="C18", title="A pump runs inside its chart and uses the power of the point it runs at",
  statement="In every period a pump without rate is off. Otherwise the head asked for is the pressure difference over the density; the rate is raised to the lowest rate at that head (recirculation), the head raised to the lowest head at that rate (choking), and a head above the highest one by at most the head margin (in metres of liquid column) lowered to it. The period is invalid exactly if head or rate are then above the highest of the chart, and the power is density times rate times head over the efficiency at that point. The limits of a chart follow its speed curves: lowest rate along their ends, lowest head along the lowest speed and the stone wall, highest head along the highest speed. A chart is the points given, per speed and by rate, in any order and unit; a control margin cuts off that part of each curve; on a curve the efficiency is the curve's, elsewhere within the range of the chart. The highest rate is that of the chart at the head. The pump of a process simulation runs by the same rules (its lowest rate at least the one given for it), at the speed whose curve has its head; the streams around it carry what recirculates between mixer and splitter, what is asked for elsewhere, and the choke lowers what it delivers to the pressure asked for.",
  quantifier=(["inputs", "configurations"], "every chart, rate, pressures, density, margin and number of periods"),
  why="Whether a point is recirculated, choked or infeasible depends on where it lies relative to the chart; tests sample a few points of two charts.",
  files=["src/libecalc/domain/process/pump/pump.py", "src/libecalc/domain/process/value_objects/chart", "src/libecalc/presentation/yaml/mappers/charts", "src/libecalc/presentation/yaml/mappers/facility_input.py", "src/libecalc/domain/process/core/results/pump.py", "src/libecalc/process/pump", "src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py"],
  mechanism=[("PumpModel.simulate", "src/libecalc/domain/process/pump/pump.py"), ("Chart", "src/libecalc/domain/process/value_objects/chart/chart.py"), ("UserDefinedChartData", "src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py")]),
 dict(id="C19", title="Streams conserve mass and composition through mixers, splitters, chokes, recirculation and distribution",
  statement="Mixing streams gives the sum of their mass rates, the molar-weighted composition and the lowest of their pressures, and refuses streams it cannot mix; a splitter takes out the rates given and passes on the rest, never a negative rate, and a stream without a rate splits into streams without a rate. A choke or pressure drop lowers the pressure by exactly its amount and refuses to lower it to nothing; temperature setters and liquid removers change only temperature or only the liquid. Rate taken out after a compressor is the rate recirculated into it. Mass, standard and actual rates of a stream are the same rate in different units. A common stream is divided by the fractions given, what a train cannot handle goes where its overflow goes, and no rate is lost; of several settings the first in which all are valid is used. A state that is not physical is refused.",
  quantifier=(["inputs", "configurations"], "every stream state, composition, rate, fraction, capacity and overflow order (fluid properties are unknown functions)"),
  why="Conservation must hold for every combination of rates and orders; zero rates, several inlets and overflows in another order than the items are not among the sampled cases.",
  files=["src/libecalc/process/fluid_stream", "src/libecalc/process/process_units", "src/libecalc/process/stream_distribution", "src/libecalc/domain/process/entities/process_units"],
  mechanism=[("StreamMixer", "src/libecalc/process/fluid_stream/stream_mixer.py"), ("LegacySplitter", "src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py"), ("CommonStreamDistribution", "src/libecalc/process/stream_distribution/common_stream_distribution.py"), ("RateModifier", "src/libecalc/domain/process/entities/process_units/rate_modifier/rate_modifier.py")]),
 dict(id="C20", title="Numeric searches stay inside their interval and return what they promise",
  statement="The search for the largest x that satisfies a condition returns an x in its interval that satisfies it whenever the lower end does, and that is within the tolerance of an x that does not satisfy it, or of the upper end. A bisection returns an accepted value inside its boundary, or reports that it did not converge; the lowest and highest satisfying values are found within the tolerance. Root finding returns a value in its bounds where the function changes sign within the tolerance; the secant method stays in its bounds and never divides by zero. Damped updates lie between the current and the proposed value. A value compared with a target is equal to it exactly within the tolerance, and less or greater otherwise.",
  quantifier=(["inputs", "histories"], "every function (unknown), interval, tolerance and number of iterations"),
  why="All compressor and process solutions rest on these searches; a search that returns an infeasible end point is feasible in the tests' monotone examples.",
  files=["src/libecalc/common/numeric_methods.py", "src/libecalc/process/process_solver/search_strategies.py", "src/libecalc/process/process_solver/float_constraint.py"],
  mechanism=[("maximize_x_given_boolean_condition_function, find_root, secant_method", "src/libecalc/common/numeric_methods.py"), ("Bisect", "src/libecalc/process/process_solver/search_strategies.py")]),
 dict(id="C21", title="A compressor runs at the point of its chart for its speed and rate",
  statement="At a speed of a curve the head and efficiency are those of the curve at the rate; between two curves they are those at the same share of the rate range of each, weighted by how close the speed is to each. A rate below the lowest at the speed is raised to it (recirculation); the point is valid exactly if the speed is within the chart and the rate not above the highest at the speed, and is reported as what it was before recirculation (no rate, below the lowest, inside, above the highest, outside the speeds). For a point of rate and head the rate is raised to the lowest at the head, and with choking the head to the lowest at that rate; it exceeds the capacity exactly if it is then above the highest rate at the head, above the highest head at the rate, or, without choking, below the lowest head. A generic chart is scaled by its design point, and one made from points covers them.",
  quantifier=(["inputs", "configurations"], "every chart, speed, rate, recirculated rate and head"),
  why="The regions in and around a chart, and points between curves, are combinations that the sampled points of a few charts do not settle.",
  files=["src/libecalc/domain/process/value_objects/chart"],
  mechanism=[("CompressorChart", "src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py"), ("CompressorChartCreator", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py")]),
 dict(id="C22", title="A compressor train delivers the pressure asked for within its charts, or says what fails",
  statement="Each stage takes the gas of the one before, after its pressure drop, cooled, with the streams connected to it drawn off and mixed in at their own rates, in whatever order the streams are listed; it is compressed along the chart at the common speed, with at least the minimum rate recirculated, and its power is the enthalpy it adds to all that passes. The speed is one at which the pressure asked for is delivered; where none within the speeds gives it, the train runs as slow as the rate allows when it gives more (and then the chosen pressure control brings it down to the pressure, or to an intermediate one, where the control can), and as fast as it can when it gives less. A result is valid exactly when every stage is within its chart, the pressures are those asked for (to 0.1 %) and the power of all stages is not above the maximum; otherwise what fails is told. Without gas there is no power; more gas out than in is refused. Each period is evaluated by its own rates and pressures, and the same whatever was evaluated before. The maximum rate is one the train can run, and it cannot run much more.",
  quantifier=(["inputs", "configurations", "histories"], "every train, pressure control, set of streams and sequence of rates and pressures"),
  why="The controls, limits and streams of a train combine; the tests sample few combinations, and most need a fluid library that is not there.",
  files=["src/libecalc/domain/process/compressor/core", "src/libecalc/domain/process/entities/process_units/legacy_compressor"],
  mechanism=[("CompressorTrainCommonShaft", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("CompressorTrainStage", "src/libecalc/domain/process/compressor/core/train/stage.py")]),
 dict(id="C23", title="A process is solved for its outlet pressure whenever it can be, with settings that give it",
  statement="Solving a process section for an outlet pressure gives a speed within the range of its shaft, a recirculation and, where its pressure control needs it, a choking or more recirculation, one setting for each, with which the outlet pressure is the one asked for (within the pressure tolerance), every compressor is between its lowest and highest flow at that speed, what comes in goes out, and the speed is the lowest that gives the pressure, or that takes the rate if that gives more. What was solved before makes no difference. It fails only if the pressure cannot be had: because the rate is more than it takes at the highest speed, because it gives less at the highest speed, or because it gives more with as much recirculation or choking as it takes; the failure says which, and where, with the pressure that can be had. Sections on one shaft each give their own pressure at one speed, the lowest that all can run at; sections on shafts of their own each give theirs, or the same pressure ratio. Of a rate, nothing is in excess if the train takes it; otherwise what is left can be taken by the train and is as much as it takes.",
  quantifier=(["inputs","configurations","histories"],"all pressures, speed ranges and reactions of the gas (finders, decision, excess: proved); generated trains, controls, rates and pressures"),
  why="Tests solve a handful of trains for round numbers, mostly with a gas model that is not available here.",
  files=["src/libecalc/process/process_solver/pipeline_section_solver.py","src/libecalc/process/process_solver/multi_pressure_solver.py","src/libecalc/process/process_solver/multi_shaft_solver.py","src/libecalc/process/process_solver/feasibility_solver.py"],
  mechanism=[("the speed", "src/libecalc/process/process_solver/finders/shaft_speed_finder.py"),("the recirculation", "src/libecalc/process/process_solver/finders/recirculation_loop_rate_finder.py"),("the choking", "src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py"),("individual recirculation", "src/libecalc/process/process_solver/pressure_control/individual_asv.py"),("PipelineSectionSolver._find_solution", "src/libecalc/process/process_solver/pipeline_section_solver.py")]),
 dict(id="C24", title="The process that is simulated is the process drawn in the file",
  statement="Each process of a process simulation becomes the units of the file, in the order drawn, between one inlet and one outlet, each connected to the next and to nothing else, with all its compressors on one shaft and the charts, control margins, pressure drops, temperatures, streams, fluids and rates the file gives for each unit and period, whether given in place or by reference. There is one section up to each constraint. With individual anti-surge there is one recirculation around each compressor and the units directly before it, with common anti-surge one around the section, never around a mixer or splitter; a choke is first or last in its section as its pressure control says. Each constraint has its pressure in each period and is at the last unit of its section, the last one before the outlet. Streams, fractions and overflows are those of the file, between the processes named. An event changes the unit named, to the unit named, on the date of the event it refers to. A process that cannot be divided so (a compressor without a constraint, a section without a compressor, two constraints in one place or none, strategies that do not go together) and a reference to something that does not exist are refused with a validation error.",
  quantifier=(["inputs", "configurations"], "every process of up to 3 compressors, coolers and mixers with every set of constraints; generated processes of up to 7 units, files of up to 3 processes, any fluid (components: all values)"),
  why="Where recirculation, chokes and constraints end up depends on the whole sequence of units and constraints; tests draw few processes and check single positions.",
  files=["src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py", "src/libecalc/presentation/yaml/mappers/process", "src/libecalc/process/process_solver/section_assembly.py", "src/libecalc/process/process_pipeline/process_pipeline.py", "src/libecalc/presentation/yaml/mappers/fluid_mapper.py", "src/libecalc/presentation/yaml/mappers/ecalc_event_mapper.py", "src/libecalc/ecalc_model"],
  mechanism=[("ProcessSimulationMapper", "src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py"), ("ProcessPartitioner", "src/libecalc/presentation/yaml/mappers/process/process_partitioner.py"), ("assemble_process_section", "src/libecalc/process/process_solver/section_assembly.py")]),
 dict(id="C25", title="What the model file asks of a consumer is what is evaluated",
  statement="Every rate, pressure, density, load, factor and loss of a consumer is its expression in the model file in each period: rates per stream day by the regularity of the installation (loads and fuel rates as the rate type says), zero where the conditions given (one, or all of several) do not hold, each in its own place, for its own stream, compressor or pump of a system; parts of a total rate are the fractions given. Where its conditions do not hold a consumer uses nothing. In each period the model in force there is used, with the fuel, table and category in force: the consumer's own fuel, or else that of the installation; cable loss where power comes from shore, and the limit on it when one is given, zero included. The emissions and volumes of a venting emitter are those given, under their own conditions. A consumer that would run with a negative rate or pressures that cannot be, or of a model that consumes other energy than it is given, is refused.",
  quantifier=(["inputs", "configurations", "schedules"], "all values of the expressions, regularities, conditions and dates, any number of periods (two units or streams each)"),
  why="Each keyword of each kind of consumer has its own path from the file to the model; tests use files where conditions, regularities, dates and second units are mostly alike, so a crossed or dropped one does not show.",
  files=["src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/presentation/yaml/mappers/component_mapper.py", "src/libecalc/presentation/yaml/domain", "src/libecalc/domain/process/evaluation_input.py"],
  mechanism=[("ConsumerFunctionMapper", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py"), ("EcalcModelMapper", "src/libecalc/presentation/yaml/mappers/component_mapper.py"), ("CompressorEvaluationInput", "src/libecalc/domain/process/evaluation_input.py")]),
 dict(id="C26", title="The equipment described in the model file is the equipment evaluated",
  statement="A compressor train has the stages of the model file, in order, each with the chart it refers to (in the units it is given in), cut by its own control margin, its own inlet temperature and pressure drop, all on one shaft; the train has its own fluid, power adjustment, maximum power, pressure control and highest discharge pressure. Streams go in or out of the stage they are connected to, each with its own fluid, and the pressure between is controlled at the stage and in the way given; a train with a stream that is not connected to exactly one stage, with a reference to a stream that is not there, or with nothing coming into its first stage, is refused. A simplified train has the stages given, or the fewest (and at least one) with which no stage has more than the maximum pressure ratio in the periods it can run in; a chart made from the input is made of the rates and pressures of its stage in those periods, an equal share of the ratio each, at its temperature and efficiency, and one from a design point of that point. A turbine has its own heating value, loads, efficiencies and adjustment, apart from those of the compressor with the turbine. Pumps, tables and sampled compressors have the values of the columns of the file they refer to; a file that is not there is refused. Values are converted from the units they are given in, and other units are refused.",
  quantifier=(["inputs", "configurations"], "all values; trains of up to three stages and four streams, generated tables and periods"),
  why="Every field of every stage takes its own path to the model; in the files of the tests stages share temperatures, margins and charts, so that one that is crossed, dropped or converted twice does not show.",
  files=["src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/presentation/yaml/mappers/model.py", "src/libecalc/presentation/yaml/mappers/utils.py", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py", "src/libecalc/presentation/yaml/mappers/charts"],
  mechanism=[("CompressorModelMapper", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py"), ("calculate_number_of_stages", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py"), ("GenericFromInputChartData", "src/libecalc/presentation/yaml/mappers/charts/generic_from_input_chart_data.py")]),
 dict(id="C27", title="A model file that contradicts itself is refused before anything is evaluated",
  statement="A model file is refused, with an error saying so and before anything is evaluated, when: two components, two models, two time series collections, two consumers of a system or two emissions of a fuel or emitter have the same name; something used refers to a model, fuel, file, time series column or variable that is not there, to a model of a kind that does not belong there, or variables refer to themselves or each other; a consumer of electricity uses fuel or the reverse; a system has settings in which what is given per consumer is not given for each of them, rates or pressures are given twice or not at all, fractions have no total, pumps have no density, or a crossover is not to another consumer of the system, or has no settings; a table lacks a column that is needed, has a cell that is not a number, or is given other variables than its columns, each once; a turbine has not as many loads as efficiencies, or an efficiency above one; a time series has the same date twice; the dates of a model given per date are not in order, or its kind changes; the end is not after the start; an expression cannot be read; or a field or category does not exist, or a required one is missing. One that has none of these is accepted.",
  quantifier=(["inputs", "configurations"], "a model of every kind of consumer, contradicted in each of these ways at any place; all kinds of models for every reference; all crossovers of systems of up to three consumers, all orders of up to four dates"),
  why="What slips through is not an error but a result: of two emissions one is dropped, of contradicting settings one is used, of unordered dates one model is never used; the tests try one example of some of these.",
  files=["src/libecalc/presentation/yaml/model.py", "src/libecalc/presentation/yaml/yaml_types", "src/libecalc/presentation/yaml/yaml_reference_service.py", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py"],
  mechanism=[("YamlModel.validate_for_run", "src/libecalc/presentation/yaml/model.py"), ("YamlAsset", "src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py"), ("check_field_model_reference", "src/libecalc/presentation/yaml/yaml_types/models/model_reference_validation.py"), ("YamlReferenceService", "src/libecalc/presentation/yaml/yaml_reference_service.py")]),
]
