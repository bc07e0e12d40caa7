prop("C01", "Limit order book conserves shares and matches by price, then time",
 "Over any history of add, cancel and market-order operations, a market order consumes resting orders of the opposite side strictly by best price and, within one price, by arrival, reports per price level exactly the shares it took, and reports completion exactly when enough volume was resting. Every share added is filled once, cancelled, or still resting: a partly filled order keeps its place and its remainder. Adding an id that is live and cancelling an id that is not live fail and change nothing.",
 ["histories"], "all finite histories of operations, price ladders, sizes and id reuse",
 "The unit tests run nine fixed histories of a handful of operations; priority and conservation are statements about every history.",
 ["crates/RustQuant_trading/src/limit_order_book.rs", "crates/RustQuant_trading/src/limit_order_book/limit.rs", "crates/RustQuant_trading/src/order_book.rs"],
 [("per-level FIFO queue", "limit_order_book/limit.rs Limit::{add,cancel,execute}"), ("ordered price trees", "limit_order_book.rs Book::execute_market_order"), ("id to order map", "limit_order_book.rs Book::order_map")],
 "Every call of tens of thousands of random and hostile histories is compared online with a reference matching model, and the complete hidden book state is probed by replay; assumes nothing but the public API.",
 "online reference-model monitor of book histories with state probing by replay",
 observe=["Book::add_order / cancel_order / execute_market_order results"])
prop("C02", "Reverse-mode gradients equal the true partial derivatives",
 "For every expression built from tape variables and constants with the supported operators and functions, the value equals the plain floating-point evaluation, and the accumulated gradient with respect to each variable equals the mathematical partial derivative wherever the expression is differentiable. This holds for shared subexpressions, for a variable or a constant on either side of a binary operation, for compound assignment, for sums and products over iterators, for any number of accumulations on the same graph, and whatever else the graph holds. A variable the output does not depend on has gradient zero.",
 ["programs", "inputs"], "all expression programs over the supported operators, and all points of their domains",
 "Unit tests differentiate one operator at one or two points; the chain rule over arbitrary programs, operand orders and domains is left open.",
 ["crates/RustQuant_autodiff/src/variable.rs", "crates/RustQuant_autodiff/src/overload.rs", "crates/RustQuant_autodiff/src/accumulate.rs", "crates/RustQuant_autodiff/src/graph.rs", "crates/RustQuant_autodiff/src/gradient.rs"],
 [("tape of vertices with partials", "graph.rs Graph"), ("backward sweep", "accumulate.rs Accumulate"), ("operator overloads", "overload/")],
 "Random expression programs are run on the tape and on an independent forward-mode dual evaluator written for the monitor; floating-point tolerance scales with the conditioning of the program.",
 "differential monitor: reverse-mode tape against an independent dual-number interpreter over generated programs")
prop("C03", "Holiday calendars follow each market's published holiday rules",
 "For every supported market and every date from 1901 to 2199, the calendar says holiday exactly when that market's rules do: fixed dates, weekday-of-month and substitute-day rules, days relative to Easter (western or orthodox as computed by the computus), and the explicit year-by-year lists of the lunar-calendar markets. The verdict depends on the date alone.",
 ["inputs"], "all (market, date) pairs of the covered years",
 "Tests check a few dates of one year for half of the markets; every year exercises other substitute-day and Easter combinations.",
 ["crates/RustQuant_time/src/countries", "crates/RustQuant_time/src/utilities.rs", "crates/RustQuant_time/src/calendar.rs"],
 [("per-market rule functions", "countries/*/*.rs"), ("Easter Monday tables", "utilities.rs EASTER_MONDAYS"), ("date unpacking", "utilities.rs unpack_date")],
 "Every date of 1901-2199 for every market is compared with an independently written rule specification and a computus; the year-specific lists of lunar-calendar markets are a reference table derived from the published lists as the code carries them.",
 "exhaustive observation of the calendar API against an independent rule specification and computus")
prop("C04", "Business-day predicates, rolling and counting agree with the calendar",
 "A date is a business day exactly when it is neither in the market's weekend nor a holiday nor in a holiday the user added, and the counts of holidays and business days between two dates, both included, and the business-day schedules agree with that classification. Rolling by each convention yields the date its definition gives (nearest business day in the stated direction, staying in the month for the modified ones), and is the identity on business days. Market weekends are the market's own (Friday and Saturday for Israel).",
 ["inputs", "configurations"], "all dates, markets and business-day conventions",
 "Tests roll a few dates in one market; holiday clusters at month ends and weekends decide the conventions.",
 ["crates/RustQuant_time/src/calendar.rs", "crates/RustQuant_time/src/date_rolling.rs"],
 [("calendar queries", "calendar.rs Calendar"), ("date rolling", "date_rolling.rs DateRoller")],
 "Exhaustive over years for the predicates, random intervals and all conventions for the rest; the oracle recomputes from the holiday predicate alone.",
 "online monitor with definitional oracle over exhaustive and random dates")
prop("C05", "Day counts and year fractions follow their convention",
 "For every pair of dates with start not after end, each supported day-count convention returns the day count and the year fraction that its published definition gives: actual/fixed-denominator, one/one, the 30/360 family, actual/actual ISDA and AFB, and the no-leap conventions, which drop exactly the 29ths of February in the period. Actual day counts are additive over adjacent periods, and zero for an empty period; conventions of fixed denominator count a reversed period negative.",
 ["inputs"], "all ordered date pairs and conventions",
 "Tests use a few pairs; month ends, leap days and periods over several leap years decide the conventions.",
 ["crates/RustQuant_time/src/day_counting.rs"], [("conventions", "day_counting.rs DayCountConvention / DayCounter")],
 "Random and boundary date pairs (month ends, leap days, century years) over 1900-2200 against independently written definitions on a civil-day arithmetic of the monitor's own.",
 "differential monitor against independently written definitions")
prop("C06", "Schedules, frequencies and date utilities are calendar-correct",
 "Period counts per year, frequency advances and generated date sequences follow the calendar: a sequence from one date to another lists every date once in order, month and quarter and year starts and ends, last days and leap years are those of the Gregorian calendar, and counting days, weekdays, weekends, months or business days agrees with enumeration.",
 ["inputs"], "all dates, frequencies and intervals",
 "Tests use a few fixed dates; leap years and month ends are where calendar arithmetic fails.",
 ["crates/RustQuant_time/src/utilities.rs", "crates/RustQuant_time/src/frequency.rs", "crates/RustQuant_time/src/schedule.rs", "crates/RustQuant_time/src/date_generation.rs", "crates/RustQuant_time/src/constants.rs"],
 [("date helpers", "utilities.rs"), ("frequencies", "frequency.rs")],
 "Exhaustive over a date range plus random intervals against a civil-day arithmetic of the monitor's own.",
 "online monitor with enumeration oracle")
prop("C07", "Curves answer from their current nodes after every mutation",
 "After any sequence of constructions, insertions, updates and parallel shifts, a curve returns exactly the stored rate at a node, the value of its interpolation (linear or exponential) of its current nodes between nodes, and its node list, first and last date, length, bracketing nodes and rates match that content; a rate interpolated and inserted becomes a node. A date outside the range yields no invented number and changes nothing; setting a rate updates the node at that date or adds it.",
 ["histories"], "all mutation and query histories on curves of each kind and interpolation",
 "Tests build one curve and query it; stale state needs a mutation followed by a query.",
 ["crates/RustQuant_data/src/curves.rs"], [("nodes", "curves.rs Curve"), ("interpolator", "curves.rs Curve::interpolator")],
 "Random histories against a model that interpolates from scratch from the current nodes.",
 "stateful online monitor against a rebuild-from-scratch model")
prop("C08", "Interpolators reproduce their knots and their defining curve between them",
 "Every interpolator returns the given ordinate at each knot, and between knots the value of its defining formula (straight line, exponential in time, or B-spline combination), whatever the order in which points were supplied or added. Points outside the knot range and malformed inputs are reported as errors.",
 ["inputs", "histories"], "all knot sets, insertion orders and query points",
 "Tests interpolate one sorted grid; unsorted input, unequal spacing, boundaries and added points are not reached.",
 ["crates/RustQuant_math/src/interpolation"], [("interpolators", "interpolation/*.rs")],
 "Random grids and histories against independent formulas.", "differential monitor against independent formulas")
prop("C09", "Distribution functions are mutually consistent and correct",
 "For every distribution and valid parameters, the density or mass function is non-negative and sums or integrates to one, the distribution function is its running total, monotone from zero to one, the quantile function inverts it, and mean, variance, skewness, kurtosis, median, mode, entropy and generating or characteristic functions are those of the distribution. Parameters outside the family are refused, and so are (or are answered by no finite number) quantiles of arguments outside the unit interval, generating functions beyond the point where they diverge, and any mass or density outside the support.",
 ["inputs"], "all distributions, parameters and arguments",
 "Tests evaluate one parameter set at a few points.",
 ["crates/RustQuant_math/src/distributions"], [("distributions", "distributions/*.rs")],
 "Random parameters and arguments against independent special functions, sums and quadratures.", "differential monitor against independent special functions and quadrature")
prop("C10", "Random samples follow the distribution they are drawn from",
 "Samples drawn from any distribution with any valid parameters have the requested length, lie in the support, and follow the distribution function that the same object reports, whatever the sample size.",
 ["inputs", "schedules"], "all distributions, parameters and sample sizes",
 "Tests compare one sample mean; a wrong law with the right mean passes.",
 ["crates/RustQuant_math/src/distributions"], [("samplers", "distributions/*.rs sample")],
 "Goodness-of-fit tests on large unseeded samples at thresholds with false-alarm probability below 1e-9 per run; biases below the resolution of the sample are not seen.",
 "statistical monitor (Kolmogorov-Smirnov and chi-square bounds) over recorded samples")
prop("C11", "Numerical integration returns the definite integral",
 "For every integrand that is smooth on the interior of a finite interval, including ones with integrable endpoint singularities, the integral over the interval is accurate to the documented order, changes sign when the limits are swapped, and is additive and linear.",
 ["inputs"], "all smooth integrands and finite intervals", "Tests integrate a few fixed functions.",
 ["crates/RustQuant_math/src/integration.rs"], [("tanh-sinh rule", "integration/")],
 "Random polynomials, exponentials, trigonometric and endpoint-singular integrands with known antiderivatives.", "differential monitor against closed-form integrals")
prop("C12", "Root finders return a root to the requested accuracy",
 "For a continuous strictly monotone function with a root inside the limits and a guess strictly inside them, bisection, Brent and Newton-Raphson return that root to the requested accuracy. For any other continuous function a finite answer is a point where the function vanishes or changes sign within the accuracy, and never a number when the function has no root. Enforced limits are never left.",
 ["inputs"], "all continuous functions with a bracketable root, guesses, steps and accuracies", "Tests solve one or two functions from one guess.",
 ["crates/RustQuant_math/src/rootfinding"], [("bracketing and solve", "rootfinding/*.rs")],
 "Random monotone and non-monotone functions with known roots; accuracy is judged on the root position for monotone functions.", "online monitor checking returned roots by substitution")
prop("C13", "Gradient descent reports the point it reached, and it is a minimum",
 "On a smooth convex objective with a stable learning rate, gradient descent converges to the minimiser, and the reported minimiser is the one that the stated number of fixed-rate steps reaches, the search stops early only where the gradient norm is below the tolerance, and the reported minimum is the objective at the reported minimiser.",
 ["inputs"], "all smooth convex objectives, starts and stable learning rates", "Tests minimise two functions and look at the minimiser only.",
 ["crates/RustQuant_math/src/optimization"], [("update loop", "optimization/gradient_descent.rs")],
 "Random convex quadratics and other convex functions in several dimensions with known minimisers.", "online monitor recomputing objective and gradient at the reported point")
prop("C14", "The fast Fourier transform equals the discrete Fourier transform",
 "For every complex or real input whose length is a power of two, the forward transform equals the discrete Fourier sum (the real transform its moduli), in place and out of place alike, energy is preserved, and other lengths are rejected.",
 ["inputs"], "all inputs of power-of-two length", "Tests transform two fixed vectors.",
 ["crates/RustQuant_math/src/fft.rs"], [("radix-2 recursion", "fft/")],
 "Random vectors of length 1 to 4096 against the direct sum.", "differential monitor against the direct sum")
prop("C15", "Descriptive statistics equal their definitions",
 "For every data set, the means, variances, covariance, correlation, skewness, kurtosis, quantiles, extremes and spreads equal their definitions, follow shift and scale, and leave the data unchanged.",
 ["inputs"], "all finite data sets and measure inputs", "Tests evaluate one data set.",
 ["crates/RustQuant_math/src/statistic.rs"], [("statistics", "statistic.rs")],
 "Random data sets against two-pass definitions.", "differential monitor and metamorphic relations")
prop("C16", "Sequences and array utilities return exactly the grid they promise",
 "A linear grid of at least two points has the requested length, the given end points and equal spacing, and rejects invalid limits; a stepped sequence starts at the start, advances by the step and ends at the last value not beyond the end; repetitions and running sums equal their definitions; approximate equality accepts exactly the pairs within its tolerance.",
 ["inputs"], "all end points, lengths and vectors", "Tests build one grid.",
 ["crates/RustQuant_math/src/sequences.rs", "crates/RustQuant_utils/src"], [("linspace", "sequences/linspace.rs")],
 "Random inputs against definitions.", "online monitor with definitional oracle")
I="crates/RustQuant_instruments/src/"
S="crates/RustQuant_stochastics/src/"
prop("C17", "Closed-form option prices are arbitrage-free and mutually consistent",
 "For all valid inputs, Black-Scholes-Merton, Black 76, Asay, Garman-Kohlhagen and Bachelier prices satisfy put-call parity for their cost of carry, lie within their no-arbitrage bounds, are monotone and convex in strike and increasing in volatility, agree with one another where the models coincide, and equal the discounted risk-neutral expectation of the payoff; an option without a valuation date is valued today.",
 ["inputs"], "all spots, strikes, rates, carries, volatilities and expiries", "Tests price a few textbook cases.",
 [I+"options/black_scholes_merton.rs", I+"options/option_models.rs", I+"analytic_option_pricer.rs"],
 [("generalised Black-Scholes", "options/black_scholes_merton.rs and options/option_models.rs")],
 "Random and extreme inputs against numerical integration of the payoff and parity identities.", "differential monitor against quadrature plus metamorphic no-arbitrage relations")
prop("C18", "Option sensitivities are the derivatives of the price they accompany",
 "For every closed-form model and all valid inputs, each reported sensitivity equals the corresponding partial derivative of that model's own price, of first, second or third order, with the documented sign and unit convention, for calls and for puts.",
 ["inputs"], "all models, flags and inputs", "Tests compare one or two sensitivities with constants.",
 [I+"options/black_scholes_merton.rs", I+"options/option_models.rs"], [("greeks", "options/option_models.rs")],
 "Independent high-accuracy price differentiated numerically; tolerances follow the differentiation error estimate.", "differential monitor: analytic sensitivities against differentiated prices")
prop("C19", "Implied volatility inverts the pricing formula",
 "For every price strictly inside the no-arbitrage bounds, the implied volatility reproduces that price when fed back to the same formula, and recovers the volatility the price was made from whenever the price determines it; outside the bounds it does not return an ordinary volatility.",
 ["inputs"], "all in-bounds prices of calls and puts across moneyness, expiry, rate and volatility", "Tests invert a few at-the-money prices.",
 [I+"options/implied_volatility.rs", I+"options/black_scholes_merton.rs", I+"options/option_models.rs"], [("rational inversion", "options/implied_volatility.rs")],
 "Random deep in- and out-of-the-money round trips with a vega-scaled tolerance.", "round-trip monitor with conditioning-aware tolerance")
prop("C20", "Heston and SABR prices agree with independent valuations of the same model",
 "For admissible parameters in their practical range, where the Heston characteristic function has decayed at the library's integration bound, the Heston price equals the risk-neutral expectation of the payoff under the Heston dynamics, satisfies put-call parity and bounds, and tends to Black-Scholes as the volatility of variance vanishes; its sensitivities are derivatives of that price. The SABR implied volatility equals the Hagan formula and is continuous at the money, and a SABR model fitted to volatilities comes at least as close to them as the model they were generated from.",
 ["inputs"], "all admissible parameters", "Tests compare a few constants, some of which fail.",
 [I+"options/option_models.rs"], [("Fourier inversion", "options/option_models.rs Heston93"), ("Hagan expansion", "options/option_models.rs Sabr02")],
 "Random parameters against an independent Fourier valuation and an independent Hagan formula.", "differential monitor against independent valuation")
prop("C21", "Payoffs equal their contractual definition on every price path",
 "For every option contract and every path, the payoff is non-negative where the contract is an option and equals its definition, in terms of the terminal, average, extreme or barrier-crossing values of the path; a knock-in and its knock-out add up to the vanilla payoff plus the rebate, calls and puts mirror each other, and barrier events count touching.",
 ["inputs"], "all contracts, flags, barriers and paths", "Tests price by simulation at one set of parameters.",
 [I+"options", I+"payoff.rs"], [("payoff", "options/*.rs Payoff")],
 "Random contracts and adversarial paths (touching barriers, constant, long) against independent definitions.", "differential monitor against definitional payoffs")
prop("C22", "Monte Carlo prices are the discounted mean payoff of the simulated paths",
 "For every contract, process and simulation configuration, the Monte Carlo price equals the discounted sample mean of the contract's payoff over exactly the paths the process generates for that configuration, and converges to the closed form where one exists.",
 ["inputs", "configurations"], "all contracts, processes and configurations", "Tests run one seeded configuration with a loose tolerance.",
 [I+"monte_carlo_pricer.rs", I+"payoff.rs"], [("pricing macro", "monte_carlo_pricer.rs")],
 "Seeded runs recomputed path by path; convergence checked within standard-error bounds.", "offline checker over recorded paths")
prop("C23", "Finite-difference prices converge to the option value",
 "For European options whose drift stays well inside the grid of five deviations (r*sqrt(T) at most 1.5 volatilities), the explicit (within its stability limit), implicit and Crank-Nicolson schemes approach the Black-Scholes value as the grid is refined, for calls and puts, any moneyness and any unit of account; American prices are at least the European price and the immediate exercise value and agree with an independent valuation; an option without a valuation date is valued today.",
 ["inputs", "configurations"], "all schemes, contracts and sufficiently fine grids", "Half of the existing tests fail and the rest check one grid.",
 [I+"options/finite_difference_pricer.rs"], [("schemes", "options/finite_difference_pricer.rs")],
 "Random contracts on moderate grids against closed forms and a binomial tree, with grid-error tolerances.", "differential monitor with refinement")
prop("C24", "Longstaff-Schwartz prices bracket the American option value",
 "For every contract and seed, the simulated American price is reproducible under its seed, at least the European value and the value of exercising at the first date up to sampling error, and within sampling error of an independent valuation with the same exercise dates; an option without a valuation date is valued today.",
 ["inputs"], "all contracts and seeds", "Tests use one contract with a wide tolerance.",
 [I+"options/longstaff_schwartz.rs"], [("regression and backward induction", "options/longstaff_schwartz.rs")],
 "Random contracts and seeds against a binomial Bermudan valuation with standard-error tolerances.", "statistical differential monitor")
prop("C25", "Money arithmetic and currency conversion respect currencies and rates",
 "Money of one currency adds, subtracts and scales exactly as its amounts do and mixed-currency arithmetic is refused; conversion multiplies by the rate quoted for that ordered pair, uses the latest quote, leaves the target currency, and a missing quote is refused. Currency constants carry their ISO code, numeric code and minor unit, and distinct currencies never compare equal.",
 ["inputs", "histories"], "all amounts, currencies and quote histories", "Tests convert one pair.",
 [I+"fx/money.rs", I+"fx/exchange.rs", I+"fx/currency.rs"], [("currency checks", "fx/money.rs"), ("rate table", "fx/exchange.rs")],
 "Random histories against a rate-table model; constants against a reference table.", "stateful online monitor and reference table")
prop("C26", "Portfolio, cash-flow and quote arithmetic is consistent",
 "A portfolio's value, cost, profit and weights are the sums and shares of its positions whatever the insertion order, and weights sum to one; leg valuations equal the sum over their flows of amount times discount factor, and values and dates survive every construction and update; setting a quote makes exactly the new value observable.",
 ["inputs", "histories"], "all portfolios, legs and quote histories", "Tests use one portfolio and one leg.",
 ["crates/RustQuant_portfolios/src/lib.rs", "crates/RustQuant_cashflows/src"], [("aggregation", "portfolios/src/lib.rs"), ("legs", "cashflows/src/legs.rs")],
 "Random portfolios and legs against direct sums.", "stateful online monitor with definitional oracle")
prop("C27", "Simulated paths follow the discretised dynamics on the exact time grid",
 "For every process, scheme and configuration, a simulation returns the requested number of paths, each starting at the initial value with one value per grid point on an equally spaced grid from the first to the last time, and consecutive values satisfy the chosen scheme's update (Euler-Maruyama, Milstein, or the drift in two halves around a diffusion step evaluated at the half-drifted point and mid time) with independent standard normal increments scaled by the step, the process's drift and diffusion, and, for jump processes, the sum of a Poisson number of the process's jumps.",
 ["inputs", "configurations"], "all processes, schemes, grids and seeds", "Tests compare sample means of unseeded runs.",
 [S+"process.rs", S+"simulation.rs", S], [("Euler, Milstein and Strang steps", "simulation.rs"), ("coefficients", "one file per process")],
 "The increments of a seeded run are recovered from a reference process and the recursion is replayed exactly for every other process.", "offline trace checker replaying the recursion")
prop("C28", "Seeded simulations are reproducible and independent of parallelism",
 "With a seed, any simulation or seeded pricer returns the same result every time, bit for bit, whether or not it runs in parallel and whatever the number of worker threads; different paths of one run and runs of different seeds differ.",
 ["schedules", "configurations"], "all processes, seeds, thread counts and schedules", "No test compares two runs or two thread counts.",
 [S+"simulation.rs", S+"process.rs", S+"fractional_process.rs"], [("per-path seeding", "simulation.rs")],
 "Runs repeated across thread-pool sizes under load, with injected delays and recorded schedules, and bitwise comparison; the crates contain no unsafe code, so a data race is excluded by the compiler and schedules are sampled rather than enumerated.", "schedule-stress monitor with bitwise comparison")
prop("C29", "Fractional noise and fractional processes have the fractional covariance",
 "Fractional Gaussian noise of any Hurst exponent between zero and one (one included: a straight line), any length and any horizon has mean zero and the stationary covariance of fractional Brownian increments, by either generation method, seeded or not, and fractional processes start at their initial value and accumulate that noise scaled to the interval they are simulated on; exponents outside the unit interval are refused.",
 ["inputs"], "all Hurst exponents, lengths, horizons and methods", "Tests look at one mean.",
 [S+"fractional_brownian_motion.rs", S+"fractional_process.rs"], [("Cholesky and FFT generation", "fractional_brownian_motion.rs")],
 "Sample covariances over many paths within Gaussian confidence bounds; exponent one half compared with ordinary noise.", "statistical monitor over recorded increments")
prop("C30", "Parametric curve models satisfy their defining formula and limits",
 "The Nelson-Siegel-Svensson forward, spot and discount functions (rates in per cent, maturity from today in years of 365.25 days) equal their formulas at every future date, the spot rate is the average of the forward rate, the limits at short and long maturity are the model's level parameters, discount factors decrease where forward rates are positive, and dates that are not in the future are refused.",
 ["inputs"], "all parameters and dates", "Tests evaluate one curve.",
 [S+"nelson_siegel_svensson.rs", S+"curve_model.rs"], [("formulas", "nelson_siegel_svensson.rs")],
 "Random parameters and dates against independent formulas and quadrature of the forward rate.", "differential monitor")
M="crates/RustQuant_ml/src/"
prop("C31", "Regularised linear regressions minimise their objective",
 "On every data set of full column rank and moderate conditioning, least squares by each decomposition, and ridge, and lasso run to convergence, with and without intercept, return coefficients at which their objective is minimal: the normal equations or subgradient conditions hold, the intercept is not penalised, and predictions are the linear form of the inputs. Ridge and lasso with a positive penalty also do so with fewer rows than columns.",
 ["inputs"], "all full-rank data sets and penalties", "Tests fit one data set.",
 [M], [("solvers", "linear_regression.rs, ridge.rs, lasso.rs")],
 "Random data sets; optimality is checked from first-order conditions, not from another solver.", "optimality-condition monitor")
prop("C32", "Logistic regression reaches the maximum-likelihood fit",
 "On every well-conditioned data set whose classes overlap, whatever the scale and location of its features, the fitted coefficients satisfy the likelihood equations to the requested tolerance; predicted probabilities lie in the unit interval and follow from the coefficients, classes follow from the probabilities, the scores equal their definitions, and responses other than 0 and 1, non-finite features and mismatched lengths are refused.",
 ["inputs"], "all non-separable data sets", "Tests fit one data set.",
 [M+"logistic_regression.rs"], [("reweighted least squares", "logistic_regression.rs")],
 "Random data sets; the score equations are checked at the returned point.", "optimality-condition monitor")
prop("C33", "Nearest-neighbour classification and activations equal their definitions",
 "Nearest-neighbour prediction returns the majority class among exactly the k closest training points under the chosen metric (all of them when k exceeds their number), and every activation function equals its definition on scalars, vectors and tape variables alike, and has its derivative on the tape.",
 ["inputs"], "all training sets, metrics, k and inputs", "Tests classify one set and evaluate no activation.",
 [M], [("neighbour vote", "k_nearest_neighbors.rs"), ("activations", "activations.rs")],
 "Random sets against brute force, ties excluded.", "differential monitor against brute force")
prop("C34", "ISO code tables are complete, unique and agree with their standards",
 "Every country and market identifier constant carries the codes, status and names of the reference tables, codes are unique within each scheme, every market's operator and country exist, and lookup of a country by alpha-2 code returns exactly the entry that carries it and nothing for any other string.",
 ["inputs"], "all codes of the tables and all other strings", "No test looks a code up.",
 ["crates/RustQuant_iso/src"], [("tables", "iso_3166.rs, iso_4217.rs, iso_10383.rs")],
 "Exhaustive comparison with reference tables kept by the monitor.", "exhaustive observation against reference tables")
prop("C35", "The Python front end gives the library's answers and survives misuse",
 "From Python, every history of calls on curves and calendars (of every market, curve type and convention) returns the values, missing values, dates and enumerations that the data given to it determine, with Python dates standing for the same days: curves interpolate their current nodes, calendars know the market's holidays and those added, roll and count accordingly, and every convention can be passed. A call with unequal lengths or arguments of the wrong type raises an exception and changes nothing; several threads writing one curve lose no write.",
 ["histories", "inputs", "schedules"], "all histories of Python calls, dates from 1901 to 2199, all markets and conventions, and all thread schedules", "No test drives the Python front end.",
 ["bindings/rust/lib.rs", "crates/RustQuant_data/src/curves.rs", "crates/RustQuant_time/src/calendar.rs", "crates/RustQuant_time/src/date_rolling.rs"],
 [("module registration", "bindings/rust/lib.rs"), ("exported methods", "curves.rs, calendar.rs, date_rolling.rs")],
 "The extension module's sources are embedded in an interpreter and driven by a Python model built on datetime; the underlying holiday rules and day count formulas are taken from the same Rust calls (C03 and C05 decide them).", "online model-based monitor in an embedded interpreter")
prop("C36", "A computation graph can be differentiated, drawn, copied, joined and reused",
 "The vertices of a computation graph are the operations performed, in order: from every one of them the derivatives of every other are the true ones, the drawing of the graph shows exactly the vertices, edges and partial derivatives recorded, clearing a graph leaves it as good as new, zeroing one keeps its vertices and drops their derivatives, copies keep what was recorded and are independent of the original, joining two graphs keeps the edges and derivatives of both, and variables are ordered, compared and classified by their values.",
 ["histories", "inputs"], "all programs on small integers (where derivatives and drawing are exact) and all histories of recording, clearing, copying and joining", "Tests record one program per operation and never join, draw, copy or reuse a graph.",
 ["crates/RustQuant_autodiff/src/graph.rs", "crates/RustQuant_autodiff/src/vertex.rs", "crates/RustQuant_autodiff/src/graphviz.rs", "crates/RustQuant_autodiff/src/variable.rs"],
 [("recording", "graph.rs push methods"), ("drawing", "graphviz.rs"), ("joining", "Graph::join")],
 "Random programs with their own record of vertices and parents; the drawing is parsed and its path sums compared with forward-mode derivatives.", "online model-based monitor over recorded graphs")
