import json
I="tti/indicators/"
TI=I+"_technical_indicator.py"; SIM="tti/utils/trading_simulation.py"
VAL="tti/utils/data_validation.py"; PRE="tti/utils/data_preprocessing.py"; PLOT="tti/utils/plot.py"
CONST="tti/utils/constants.py"; EXC="tti/utils/exceptions.py"; PROPS=I+"properties/indicators_properties.py"
P=[]
def add(id,title,stmt,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":text},
      why_tests_cant=why,anchors={"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}))
def fs(*n): return [I+"_"+x+".py" for x in n]
samp="The suite compares a single bundled stock file (a few hundred daily rows, mostly default parameters) with recorded numbers; "
fam=dict(
V01=("moving averages and their differences","simple, exponential, time-series, triangular, variable, double, triple exponential and Wilder averages, MACD, price oscillator, detrended price oscillator, Qstick",fs("moving_average","double_exponential_moving_average","triple_exponential_moving_average","wilders_smoothing","moving_average_convergence_divergence","price_oscillator","detrended_price_oscillator","qstick")),
V02=("bands, regression and dispersion indicators","Bollinger bands, envelopes, price channel, projection bands and oscillator, linear regression value and slope, time series forecast, forecast oscillator, standard deviation, Fibonacci retracement",fs("bollinger_bands","envelopes","price_channel","projection_bands","projection_oscillator","linear_regression_indicator","linear_regression_slope","time_series_forecast","forecast_oscillator","standard_deviation","fibonacci_retracement")),
V03=("momentum and strength indicators","Chande momentum, RSI, RMI, intraday momentum, relative volatility, momentum, rate of change, commodity channel, performance, swing index",fs("chande_momentum_oscillator","relative_strength_index","relative_momentum_index","intraday_momentum_index","relative_volatility_index","momentum","price_rate_of_change","commodity_channel_index","performance","swing_index")),
V04=("stochastic, range and trend indicators","stochastic oscillator and momentum index, Williams %R, ultimate oscillator, range indicator, vertical horizontal filter, average true range, directional movement, parabolic SAR, Ichimoku cloud, mass index, Chaikin volatility",fs("stochastic_oscillator","stochastic_momentum_index","williams_r","ultimate_oscillator","range_indicator","vertical_horizontal_filter","average_true_range","directional_movement_index","parabolic_sar","ichimoku_cloud","mass_index","volatility_chaikins")),
V05=("volume and typical-price indicators","accumulation/distribution, Chaikin money flow and oscillator, Klinger, ease of movement, market facilitation, negative and positive volume index, price and volume trend, on balance volume, volume oscillator and rate of change, Williams A/D, median, typical and weighted prices",fs("accumulation_distribution_line","chaikin_money_flow","chaikin_oscillator","klinger_oscillator","ease_of_movement","market_facilitation_index","negative_volume_index","positive_volume_index","price_and_volume_trend","on_balance_volume","volume_oscillator","volume_rate_of_change","williams_accumulation_distribution","median_price","typical_price","weighted_close")))
for k,(t,names,files) in fam.items():
    add(k,"Values follow the definition: "+("volume and price indicators" if k=="V05" else t),
     f"For every market history and every accepted parameter choice, each value an indicator publishes ({names}) equals what the indicator's definition gives for that day, to the published number of decimals.",
     ["inputs","configurations"],"every OHLCV history (length, trend, gaps, ties, magnitudes) and every accepted parameter value, on every row and column",
     samp+"branches taken only in other market regimes, other parameter values, long histories and ties are not reached.",
     files,[("value calculation of each indicator",f.split('/')[-1]) for f in files])
sg=dict(
S01=("V01","moving averages"),S02=("V02","bands and regression"),S03=("V03","momentum and strength"),S04=("V04","stochastic, range and trend"),S05=("V05","volume and typical price"))
for k,(v,t) in sg.items():
    files=fam[v][2]
    add(k,f"Signals follow the documented rule: {t} indicators",
     f"On every day of every history the reported signal of each of these indicators is exactly the one its documented rule gives for the published indicator values and the prices known that day: one of buy, hold or sell, with hold whenever the history is too short for the rule to apply. Values lying exactly on a threshold are treated as the rule says (strictly above, strictly below).",
     ["inputs","histories"],"every history and parameter choice, every day of it, and every pattern of last values around the rule's thresholds",
     "The suite asserts one signal for one day of one file per indicator (plus a few hand-made cases); the crossings, ties and rare branches of each rule are mostly never executed with an expected outcome.",
     files,[("trading signal rule of each indicator",f.split('/')[-1]) for f in files])
add("I01","Results do not depend on how the same data are presented",
 "Giving an indicator the same dated observations with rows in another order, columns in another order or letter case, integer instead of floating point columns, or additional unrelated columns leaves its values, latest value, signal and simulation unchanged.",
 ["inputs","configurations"],"every indicator, every data set and every presentation of it","Tests always hand over the same file with the same layout.",
 [VAL,PRE,I],[("column selection and index ordering","validateInputData"),("column access by name in signals",I)])
add("I02","The caller's data are never modified and never shared",
 "Nothing an indicator does (construction, values, signals, graphs, simulations) changes the data frame the caller passed in, its labels or its order. Editing that frame afterwards changes nothing in the indicator or in other indicators built from it.",
 ["inputs","histories"],"every input frame (holes, upper-case labels, extra columns, views) and every sequence of calls and edits","Tests never compare the caller's frame before and after a history of calls.",
 [VAL,PRE,TI],[("copying on input","validateInputData"),("filling","fillMissingValues")])
add("I03","Missing values are filled forward then backward, and only when asked",
 "With filling on, every hole takes the last earlier observation of its column or, failing one, the first later observation, so results equal those for data filled beforehand. With filling off nothing is invented, and on complete data the two settings are indistinguishable.",
 ["inputs","configurations"],"every pattern of holes in every column, unordered rows included, for every indicator","Tests use one or two fixed hole patterns and mostly only check that a run succeeds.",
 [PRE,VAL,TI],[("fill order","fillMissingValues"),("filling after ordering by date","validateInputData")])
add("I04","Unusable input data are refused with the documented error",
 "Data that are not a frame, not indexed by dates, empty, lacking a required column or holding non-numeric required columns, and a non-boolean fill flag, are refused with the documented exception, which names the missing column, before any indicator exists.",
 ["inputs"],"every indicator and every kind and position of fault in otherwise valid data","Tests check a few faults per indicator with one example each and not which column the message names.",
 [VAL,EXC,TI],[("input validation","validateInputData"),("fill flag validation","TechnicalIndicator construction")])
add("I05","Parameters are accepted exactly on their documented domain",
 "Every parameter value inside the documented domain is accepted, boundaries included, and every other value is refused with the documented wrong-type or wrong-value error naming that parameter and the value given.",
 ["configurations","inputs"],"every parameter of every indicator and every value of it","Tests try one or two bad values per parameter and rarely both sides of each boundary; no test reads which parameter the error names.",
 [I,EXC],[("parameter validation of each indicator",I)])
add("I06","Too little history is refused from exactly the needed number of rows",
 "An indicator is created from exactly the number of rows its parameters require and refused with the not-enough-data error below it; the error states the number of rows given and the number required.",
 ["inputs","configurations"],"every indicator, every parameter choice and every row count around the requirement","Tests try one too-small row count with default parameters.",
 [I,EXC],[("minimum rows check in each calculation",I)])
add("I07","Accepted data never make an indicator fail",
 "Once an indicator has been created, every public call on it (values, lookup, signal, simulation) succeeds and returns well-formed results, also for flat prices, days without a price range, days without volume, tiny or huge prices and exactly the minimum history.",
 ["inputs","configurations"],"every accepted data set, in particular degenerate ones, and every parameter choice","The bundled file has no flat stretch, zero range, zero volume or minimal history, so divisions by zero and short look-backs are never met.",
 [I,TI,SIM],[("division guards and look-back guards of each indicator",I)])
add("A01","Output rows, columns, warm-up and precision are as documented",
 "The values come as one row per input date in ascending order with the documented columns; a value first appears on the first day with a complete window and on every later day; values carry the documented number of decimals.",
 ["inputs","configurations"],"every indicator, parameter choice, row count and row order","Tests compare whole tables for one file and one parameter set; where the warm-up ends for other periods is not checked.",
 [I,TI],[("windowing and rounding in each calculation",I)])
add("A02","Looking up a date returns that day's values, or nothing",
 "Asking for a date that is in the data, in any accepted spelling, returns exactly that row's values in column order; no date means the latest row; a date that is not in the data returns nothing instead of a neighbour or an error.",
 ["inputs"],"every indicator, every present or absent date and every way to write it","Tests look up one present and one absent date of one file.",
 [TI],[("value lookup","getTiValue")])
add("A03","Using an indicator does not change it",
 "After any history of lookups, signals, graphs and simulations, including refused, failed or interrupted simulations and work done by other indicators, an indicator still gives the values and signal of a freshly created one.",
 ["histories","fault_sequences"],"every sequence of public calls, and every day on which a simulation may be cut short by an error or an interrupt","Tests make each call once on a fresh object; nothing interrupts a simulation.",
 [TI,SIM],[("state swap during a simulation and its restoration","getTiSimulation")])
add("A04","A value never depends on later days",
 "The value of an indicator on a day is the same whether the history ends that day or goes on in any way (for the detrended oscillator, up to its documented offset; Fibonacci levels describe the whole period and are exempt).",
 ["histories","inputs"],"every history, every cut day and every continuation","Tests compute each indicator once on the complete file, so use of future data cannot show.",
 [I],[("trailing windows, recursive averages, shifts and fills in each calculation",I)])
add("A05","Omitted parameters take their documented defaults",
 "Leaving out any subset of parameters gives the same values and signals as passing the documented default values explicitly.",
 ["configurations","inputs"],"every indicator with parameters, every subset of them, every data set","Tests use defaults implicitly; a default that moves together with recorded numbers, or in the signal rule only, is not seen.",
 [I,"README.md"],[("constructor defaults",I)])
add("A06","Graphs show the indicator's own data",
 "The indicator graph contains the documented input lines and every indicator column with exactly the data's values in date order; the simulation graph shows price, exposure and balance of that simulation.",
 ["inputs","configurations"],"every indicator and data set","Tests only assert that a graph call returns without error.",
 [TI,PLOT,PROPS],[("line graph drawing",PLOT),("graph configuration",PROPS),("simulation graph","_getSimulationGraph")])
add("A07","Indicators do not influence each other, however their work is interleaved",
 "Any number of indicators of any classes (the same class, the same dates or the same prices included) whose construction, lookups, signals and simulations take turns in any order, happen inside another indicator's simulation, or run in threads of their own give exactly what each gives alone.",
 ["schedules","histories","configurations"],"every set of indicators and every interleaving of their public calls","Tests use one indicator at a time; shared buffers, caches or registries never meet a second user.",
 [TI,SIM,I],[("per-instance state and its swap during a simulation",TI),("indicators built on other indicators",I)])
add("T01","The simulation is an exact ledger of the signals it is fed",
 "For every sequence of prices and signals, every exposure limit and short factor, each simulated day equals a by-hand ledger: profitable long and short positions are closed first, then the signal opens one position unless the limit would be passed, and signal, action, price, exposure, portfolio value, earnings and balance follow from that. The closing statistics are the counts and last values of that ledger (ignored signals are those that opened nothing, first day included).",
 ["histories","configurations"],"every price path, signal sequence, limit and short factor, also when stopped early","Tests replay two recorded simulations; limits hit exactly, several positions closing on one day and short positions with other factors are not reached.",
 [SIM,TI],[("closing positions","_closeOpenPositions"),("opening positions and the limit","_processSignal"),("statistics","closeSimulation")])
add("T02","A simulated day uses only what was known on that day",
 "The signal reported for each simulated day equals the signal an indicator created from the history up to that day gives; the last one equals the current signal.",
 ["histories","inputs"],"every indicator, history and simulated day","Tests never compare a simulated day with a fresh indicator on the truncated data.",
 [TI,I],[("truncation of data per round","getTiSimulation"),("signal rules looking at the end of the data",I)])
add("T03","Simulations of every indicator obey the accounting rules",
 "For every indicator and every (own or different) price series, exposure never exceeds the limit nor falls below zero, no position closes at a loss, balance is earnings plus portfolio value, actions agree with signals, and the whole table and statistics equal a ledger driven by the reported signals.",
 ["histories","configurations"],"every indicator, data set, traded price series, limit and short factor","Tests check final numbers of one simulation per indicator on one file.",
 [TI,SIM],[("simulation loop","getTiSimulation"),("accounting",SIM)])
add("T04","A simulation of the first days is the beginning of the longer one",
 "Simulating only the first part of a history gives exactly the first rows of the simulation of the whole history, with the statistics of that part.",
 ["histories"],"every indicator, history, cut day, limit and factor","Tests simulate the complete file only.",
 [TI,SIM],[("simulation loop","getTiSimulation"),("accounting",SIM)])
add("T05","Bad simulation arguments are refused and leave no trace",
 "Close prices that are not a numeric frame with a close column on exactly the indicator's dates, limits that are not positive numbers and short factors below one are refused with the documented error naming the argument, and the indicator and its later simulations are as if the call had not been made.",
 ["inputs","fault_sequences"],"every indicator and every kind of bad argument, before and after good simulations","Tests try one example of some faults and do not look at the indicator afterwards.",
 [SIM,TI,EXC],[("argument validation",SIM)])
add("T06","Simulation decisions do not depend on the currency unit",
 "Multiplying all prices and the exposure limit by the same factor changes no decision and multiplies every amount by that factor; without a limit every signal after the first day is acted upon, and no limit equals an unreachable one.",
 ["inputs","configurations"],"every price path, signal sequence, limit, short factor and unit","Tests use one price level and two limits.",
 [SIM],[("exposure arithmetic",SIM)])
add("M01","Indicator values stay within their mathematical bounds",
 "Oscillators stay within their documented scale (such as 0 to 100 or -100 to 100), averages and channels between the lowest and highest price of their window, bands are ordered, and dispersion and range measures are never negative.",
 ["inputs","configurations"],"every history and parameter choice of the 43 indicators with a bound","Tests check recorded values only; a regime in which a bound is broken is not among them.",
 [I],[("value calculation of each indicator",I)])
add("M02","Indicators that are defined by each other agree",
 "Indicators linked by definition give the same numbers whichever way one computes them, for example bands around the moving average and standard deviation, the oscillator as the difference of two averages, momentum against rate of change, forecast against regression value and slope.",
 ["inputs","configurations"],"every history and shared parameter choice","Each indicator is tested alone against its own recorded numbers.",
 [I],[("shared building blocks of indicators",I)])
add("M03","Indicators follow a change of price or volume unit",
 "Expressing prices or volumes in another unit multiplies price-like, volume-like and product indicators by the corresponding factor and leaves ratio indicators unchanged.",
 ["inputs"],"every history, parameter choice and unit factor, for the 55 indicators with a unit law","Only one price level is tested; constants, absolute tolerances or thresholds that matter at another level are invisible.",
 [I],[("value calculation of each indicator",I)])
add("M04","Indicators built on price differences follow shifted and mirrored markets",
 "Adding a constant to all prices shifts level indicators by it and leaves difference-based indicators unchanged; turning the market upside down exchanges their upper and lower sides or their sign.",
 ["inputs"],"every history, shift and parameter choice, for the 46 indicators with such a law","The suite has no mirrored or shifted market, so an asymmetry between the up and the down side goes unnoticed.",
 [I],[("up/down and high/low branches of each calculation",I)])
add("M05","On steadily moving and flat markets values have their closed form",
 "On a market that rises, falls or stays by the same amount every day with constant daily shape, each indicator takes the value elementary algebra gives from the first defined day on.",
 ["inputs","configurations"],"every slope, shape, volume and parameter choice, for 55 indicators","The bundled file is one irregular market.",
 [I],[("value calculation of each indicator, zero divisions included",I)])
add("M06","Indicators with a finite window forget older days",
 "For the indicators defined on a finite window, a day's value is the same when days older than the window are removed or replaced by anything else.",
 ["histories","inputs"],"every history, window length and replaced past, for 33 indicators","Only one past is ever tested.",
 [I],[("trailing windows of each calculation",I)])
add("M07","Only the order of the observations matters, not the calendar",
 "The same rows on other dates (business days, weeks, years, intraday, time zones, irregular gaps, any century) give the same values, latest value, signal and simulation row by row: every window and period counts observations, never elapsed time.",
 ["inputs","configurations"],"every history, parameter choice and strictly increasing calendar","One calendar is tested: trading days of one stock.",
 [I,TI,SIM,VAL],[("windows, shifts and averages of each calculation",I),("per-day truncation","getTiSimulation")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
TECH={"V":"property-based testing: generated markets, differential against loop reference models",
"S":"property-based testing: generated histories and injected threshold patterns against rule oracles",
"I":"property-based testing: generated inputs / faults, metamorphic and contract oracles",
"A":"stateful / metamorphic property-based testing of the public API",
"T":"model-based property testing of simulations against a position-list ledger",
"M":"metamorphic property-based testing"}
NOTE={"V":"Sampled, not exhaustive: generated histories up to ~450 rows. Trusts the independent loop re-implementations of the definitions (vlib/ref.py) and the derived rounding tolerances; 0/0 cells are not compared.",
"S":"Sampled. Trusts the rule table in vlib/sig.py; indicator values are the library's own (their correctness is V01-V05). Ties decided by the last bits of an unpublished helper average are accepted either way.",
"I":"Sampled. Trusts the documented domains and minimum rows written down in vlib/spec.py.",
"A":"Sampled. Trusts the table of columns, warm-ups and defaults in vlib/spec.py.",
"T":"Sampled. Trusts the 76-line ledger model (vlib/ledger.py).",
"M":"Sampled. The laws are algebraic consequences of the definitions; tolerances follow from the published rounding."}
PY="/opt/venv/bin/python"
man={"version":1,"setup_cmd":PY+" -B vlib/selftest.py",
"checks":[{"property":p["id"],"quick_cmd":f"VERIF_TIER=quick {PY} run.py {p['id']}","thorough_cmd":f"VERIF_TIER=thorough {PY} run.py {p['id']}",
"technique":TECH[p["id"][0]],"level":"exploration","level_note":NOTE[p["id"][0]]} for p in P],
"not_applicable":[],
"notes":"All checks: run.py <id>; --replay FILE re-judges a recorded case. tti is pure Python and imported from /repo's working tree, so nothing is built."}
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
for p in P: jsonschema.validate(p,json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P))
