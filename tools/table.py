M = "model/"
def P(id, title, statement, over, q, why, files, mech, note, tech=None, at=()):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, at=list(at))
    if tech: d["tech"] = tech
    return d
VGN = "Every input is covered symbolically where normal forms coincide (PROVED); where they do not, random interpretation of the two graphs (error probability falls with the number of interpretations). Real arithmetic replaces doubles."
PROPS = [
P("C01", "Only valid quotes enter the market, and rejected updates leave no trace",
  "A stock can be listed or re-quoted only with a positive price, a non-negative volatility and, when it pays one, a dividend yield between 0 and 1; anything else, and any update of an unlisted ticker, is refused with an argument error. A refused operation leaves every quote exactly as it was. An accepted one is visible at once through every handle already handed out and changes nothing else.",
  ["inputs", "histories"], "all values passed to every listing, re-listing and update operation, from every prior market content",
  "Tests try a few bad values and mostly only look at whether an exception is thrown, not at the data left behind or at other tickers.",
  ["src/market_data/market_data.cpp", "src/market_data/stock_data.cpp", "include/market_data/stock_data.h"],
  [("range checks in quote constructor and setters", "src/market_data/stock_data.cpp"), ("ticker lookup", "src/market_data/market_data.cpp")], VGN, at=["quote accessors of every handle"]),
P("C02", "Every market change reaches exactly the observers it concerns",
  "After an accepted change of a stock's quote every live observer registered for that ticker is notified exactly once per registration, and nobody else; after a change of the interest rate every live observer is. When an observer is called, the new value is already the one it reads. A refused change notifies nobody, and observers that died are skipped without harm.",
  ["inputs", "histories"], "every mutator, every observer population (alive, dead, any ticker), every value",
  "The notification tests use one or two mocks on one ticker; they cannot cover arbitrary populations, dead observers or refused updates.",
  ["src/market_data/market_data.cpp"], [("notification loop over weak references", "src/market_data/market_data.cpp")], VGN,
  "gated effect traces: the calls made on client observers, as guarded events over the value graph", at=["observer callback"]),
P("C03", "There is one market, shared by everybody and created safely",
  "Every request for the market returns the same, non-null object, so data set through one handle is read through every other. Its creation is safe when several threads ask for it for the first time: the storage is never touched outside the protecting lock (or language-level once-only initialisation).",
  ["schedules", "histories"], "all interleavings of first and later requests",
  "A unit test asks twice from one thread; an unsynchronised creation passes it.",
  ["src/market_data/market_data.cpp", "include/market_data/market_data.h"], [("instance accessor", "src/market_data/market_data.cpp")],
  "Lock-set argument: sound for the accessor's own storage; concurrent use of the market object itself is not covered (see not-applicable list).",
  "lock-set analysis of static storage plus value graph of the accessor"),
P("C04", "The market can only be changed through the market",
  "Client code that tries to alter a quote through a handle it was given, to copy, assign or construct a market of its own, to create an option without a factory, or to instantiate the abstract interfaces does not compile, while the documented uses do.",
  ["programs"], "all client programs over the public headers",
  "Tests are programs that compile; they cannot show that violating programs do not.",
  ["include/market_data", "include/option", "include/payoff", "include/model"], [("const handles, deleted copies, protected constructors", "include/market_data/market_data.h")],
  "Compile-time witnesses decided by the compiler on the current headers, each with a positive control.",
  "type-level witnesses: requires-expressions and type traits decided by the compiler's front end, with positive controls"),
P("C05", "Observers can come and go at any time",
  "Registering, dying and cleaning up observers never loses a live one, never notifies one twice for one registration and never touches a dead one. The market does not keep observers alive. Destroying an option leaves the market usable and no longer notifying it.",
  ["histories"], "all sequences of registration, death, clean-up and notification",
  "Tests do one registration and one removal in a fixed order.",
  ["src/market_data/market_data.cpp", "src/option/base_option.cpp"], [("weak references, erase of expired entries", "src/market_data/market_data.cpp")], VGN,
  "gated effect traces over registration histories plus type-level ownership rule"),
P("C06", "Payoffs pay their contractual amount for every price",
  "For every terminal price (and extreme price for the floating lookback) the payoff is the contract's formula: vanilla max(S-K,0) or max(K-S,0), digital 1 strictly beyond the strike and 0 otherwise, double digital 1 on the closed corridor, floating lookback max(S-extreme,0) or max(extreme-S,0). The evaluation form that does not belong to the contract is refused with a logic error instead of returning a number.",
  ["inputs"], "all prices, strikes, extremes and both types",
  "Tests sample a handful of prices per payoff, rarely on the boundary.",
  ["src/payoff"], [("payoff operators", "src/payoff")], VGN),
P("C07", "Ill-formed payoffs cannot be built",
  "A payoff is accepted exactly when its strikes are non-negative and its type is one the contract has; otherwise construction fails with an argument error. An accepted payoff reports the strikes and type it was given, unchanged.",
  ["inputs"], "all strikes and all type values",
  "Tests try one negative strike and one wrong type.",
  ["src/payoff"], [("constructor validation", "src/payoff")], VGN),
P("C08", "Payoff equality and copies are faithful",
  "Two payoffs compare equal exactly when they are the same kind of contract with the same parameters, in either order of comparison. A clone is a distinct object that is equal to its original and pays the same amount at every price.",
  ["inputs"], "all pairs of payoffs of all kinds and parameters",
  "Tests compare a few pairs of the same kind.",
  ["src/payoff"], [("equality operators and clone", "src/payoff")], VGN),
P("C09", "Factories build exactly the option that was asked for",
  "A call (put) requested from a factory is an option of that factory's kind with a call (put) payoff of the right form, the requested maturity, strike(s), barrier and direction, and the requested underlying. It is registered with the market before it is handed out.",
  ["inputs", "configurations"], "all parameter sets of all factories",
  "Tests build one option per factory with one parameter set and check a few fields.",
  ["src/option", "include/option"], [("factory methods and option constructors", "src/option")], VGN),
P("C10", "Bad option requests are refused with an argument error",
  "A parameter that is missing, of the wrong type, or out of range (negative maturity or strike, unlisted ticker) makes the factory fail with an argument error, and no half-built option is registered with the market. Reading a parameter returns exactly what was stored under that name, last value winning.",
  ["inputs", "histories"], "all parameter objects",
  "Tests omit one parameter of one factory.",
  ["src/option", "include/option/parameter_object.h"], [("parameter lookup, error wrapping", "include/option/base_factory_option.h")], VGN),
P("C11", "Simulated paths have the right shape and start from the live quote",
  "A simulated path has one positive price per generator dimension, and the price simulated for maturity is the last one of such a path. It starts from the stock's current price, also when the price changed after the model was created. Successive paths are independent repetitions: each uses fresh draws and none depends on earlier ones.",
  ["inputs", "histories"], "all models, parameters, quotes, horizons and numbers of steps, and any two successive simulations",
  "Random output is only tested through loose statistics on one parameter set.",
  ["src/model", "include/model"], [("path loops", "src/model")], VGN),
P("C12", "Models follow their risk-neutral dynamics",
  "Given the generator's draws, each step of a path multiplies the price by the exponential of the model's log-return over a step of length maturity/steps: drift is rate minus dividend minus the convexity and jump (or gamma) compensator that makes the discounted price a martingale, diffusion scales with volatility and the square root of the step, jumps and correlated variance shocks follow the model's parameters. Rate, dividend and volatility are the market's values at simulation time.",
  ["inputs", "histories"], "all six models, all admissible parameters, quotes, horizons, step numbers and draws",
  "Monte Carlo tests average over paths with tolerances of several percent, for a few parameters; a wrong compensator or correlation sign passes.",
  ["src/model"], [("drift and diffusion terms", "src/model")], VGN),
P("C13", "Stochastic variance uses the requested truncated scheme",
  "The variance process of the stochastic-volatility models starts at the given initial variance and advances once per step, from the same shock that drives the correlated price, by the scheme the caller supplied (the explicit Euler scheme if none). Euler and Milstein steps use the positive part of the variance wherever it enters drift and diffusion, so a negative variance never produces an undefined price or a failure.",
  ["inputs", "configurations"], "all parameters, all variances including negative ones, all schemes",
  "No test drives the variance negative or passes a custom scheme.",
  ["src/model/heston_model.cpp", "src/model/bates_model.cpp", "src/model/discretization"], [("scheme objects", "src/model/discretization")], VGN),
P("C14", "Inadmissible model parameters are rejected at construction",
  "Each model accepts exactly the parameters for which its dynamics make sense (correlations within [-1,1], positive jump volatility, up-jump rate above one, probabilities within [0,1], positive variance parameters, an existing martingale correction) on a listed stock, and fails with a logic or argument error otherwise. A model whose correction ceases to exist because the market moved refuses to simulate.",
  ["inputs"], "all parameter values",
  "Tests try a couple of bad values per model at most.",
  ["src/model"], [("constructor validation", "src/model")], VGN),
P("C15", "Backward simulation is the Brownian bridge to today's price",
  "For the lognormal model the price simulated backwards at an earlier time, given the later price, has the conditional (bridge) law of log-price pinned at the current spot at time zero, with the current volatility. Models without such a bridge refuse with a logic error.",
  ["inputs", "histories"], "all later prices, all pairs of times, all quotes",
  "There is no unit test of the bridge; its effect on prices is hidden by Monte Carlo noise.",
  ["src/model/gbm_model.cpp", "src/model/base_model.cpp"], [("backward step", "src/model/gbm_model.cpp")], VGN),
P("C20", "Monte Carlo prices are discounted means of the contract's payoff",
  "For every contract and model the Monte Carlo price is exp(-rT), with the rate in force when pricing, times the arithmetic mean over exactly N simulations of the contract's payoff: at maturity (European, digital, double digital), at the arithmetic or geometric mean of the path (Asian), at the path's maximum or minimum (fixed lookback), against the path's extremum (floating lookback), at maturity if the barrier was or was not reached (knock-in, knock-out). All N simulations enter with equal weight and pricing succeeds for every N of at least one.",
  ["inputs", "histories"], "all contracts, payoffs, models, rates, maturities, step counts and N",
  "Tests compare a few prices with closed forms within percents, so an off-by-one in the path, a stale rate or a lost sample is invisible.",
  ["src/solver/monte_carlo"], [("path loops and discounting", "src/solver/monte_carlo")], VGN),
P("C21", "Barrier options are decided by whether the barrier was reached",
  "On the same simulations a knock-in pays its vanilla payoff exactly on the paths that reach the barrier (from below for up, from above for down, equality included) and its knock-out twin exactly on the others, so their prices add up to the vanilla price, for calls and puts.",
  ["inputs"], "all barriers, directions, strikes, quotes, models and N",
  "Tests compare a few barrier prices with closed forms with wide tolerance; a path touching the barrier exactly is never generated.",
  ["src/solver/monte_carlo", "src/option/path_dependent/barrier_option.cpp"], [("activity test and barrier pricers", "src/solver/monte_carlo")], VGN),
P("C22", "American prices follow least-squares backward induction",
  "The American price exercises on the dates T/n, ..., T only: starting from the payoff at maturity, values go back one date at a time discounted by one step, the continuation value is the regression of discounted values on the basis evaluated at the in-the-money prices, and a path exercises when its positive payoff exceeds its continuation value. The mean is discounted to today. It uses the given basis and regression, and the rate in force when pricing; no in-the-money path is not a failure. Bridge simulation is used only where the model and generator allow it.",
  ["inputs", "histories"], "all models, generators, bases, regressions, quotes, step counts and N",
  "Tests compare one price with a reference within a tolerance that hides a missing discount step or a misaligned regression.",
  ["src/solver/monte_carlo"], [("backward induction", "src/solver/monte_carlo")], VGN),
P("C23", "Builders honour their configuration whatever the order and history",
  "A pricer built prices exactly the option, with exactly the market data, model, basis and regression last set, whatever the order of the setters. Products built earlier keep their configuration when the builder is reused. Without a model each product simulates the lognormal model of its own option's stock; without a basis or regression the American default is used. Building without an option is a logic error, an option of another kind an argument error.",
  ["histories", "configurations"], "all builders, sequences of settings and reuses",
  "Tests build once per builder with one order of settings.",
  ["src/solver/monte_carlo/builder", "include/solver"], [("builder setters and build", "src/solver/monte_carlo")], VGN),
P("C32", "The Monte Carlo solver runs the pricer it was last given, N times",
  "Solving returns the current pricer's price for the number of simulations last accepted; a number of simulations of zero is refused with an argument error and leaves the previous one in force; solving without a pricer is a logic error; every solve is a new estimate.",
  ["histories", "inputs"], "all sequences of settings, all numbers",
  "Tests set once and solve once.",
  ["src/solver/monte_carlo/mc_solver.cpp", "include/solver"], [("solver setters", "src/solver/monte_carlo")], VGN),
P("C16", "A seed reproduces the same numbers, paths and prices",
  "Two generators of one class, dimension and seed asked for the same draws give the same numbers whatever other generators, models or distributions did in between; so do models built on them. Different seeds are really used, every draw is a new one, generators without a seed are seeded independently, and a generator without dimensions is refused with an argument error.",
  ["inputs", "histories"], "all generators, seeds, dimensions, distributions, models and interleavings of draws",
  "Tests draw a few numbers in one fixed order from one generator; hidden shared state shows only when several are interleaved.",
  ["src/random/number_generator", "src/model"], [("engine seeding and state", "src/random/number_generator"), ("distributions local to a simulation", "src/model")], VGN,
  "gated value graphs with random engines as deterministic state machines"),
P("C17", "Distributions sample the law they are named after",
  "A distribution is accepted exactly when its parameters define a law (uniform: lower below upper bound; exponential, Poisson: positive rate; gamma: positive shape and rate; normal: positive deviation) and otherwise refused with an argument error. Each draw is a fresh variate of exactly that law, made with the engine handed in. An inverse that is not available fails with a logic error.",
  ["inputs"], "all parameters and engine states",
  "Statistical tests of a few hundred draws cannot tell shape from scale or rate from mean for unlucky parameters.",
  ["src/random/distribution"], [("constructor validation and standard distribution", "src/random/distribution")], VGN),
P("C18", "Quasi-random generators walk their sequence without gaps or repeats",
  "The k-th number a Sobol or Faure generator returns is the inverse distribution function at the k-th coordinate, in order, of the low-discrepancy sequence of the requested dimension started at the seed, normalised to the unit interval. No coordinate is skipped, repeated or shared with another generator.",
  ["inputs", "histories"], "all dimensions, seeds, distributions and numbers of draws",
  "Tests look at a few first draws of one dimension.",
  ["src/random/number_generator"], [("point buffer and step counter", "src/random/number_generator/sobol_quasi_random_generator.cpp")], VGN + " Boost's engines are modelled as arbitrary sequences; the number of draws followed is bounded (12)."),
P("C19", "The normal quantile is the published approximation on all of (0,1)",
  "The inverse of the standard normal distribution exists exactly strictly between 0 and 1 (argument error otherwise), equals the Beasley-Springer-Moro approximation in the centre and both tails, and is odd about one half.",
  ["inputs"], "all quantiles",
  "Tests compare a few quantiles; the switch between centre and tails and the extreme tails are not among them.",
  ["src/random/distribution/standard_normal_distribution.cpp"], [("rational and tail approximation", "src/random/distribution/standard_normal_distribution.cpp")], VGN),
P("C24", "The finite-difference problem is the Black-Scholes equation of the option",
  "Written in time to expiry and the stock price, the equation handed to the solvers has diffusion one half sigma^2 x^2, convection (r - q) x, reaction -r and no source, with the option's payoff as initial value; at the far left a call is worth nothing and a put the discounted strike, at the far right a call is worth the dividend-discounted price minus the discounted strike and a put nothing. Boundary values start at the payoff. Rate, volatility and dividend are the ones in force when asked.",
  ["inputs", "histories"], "all quotes, strikes, both types, all times and prices, before and after re-quoting",
  "Tests look at a few coefficients, or at a price with a tolerance that hides a wrong boundary.",
  ["src/solver/finite_difference_method"], [("coefficients, boundaries and initial value of the Black-Scholes PDE", "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp")], VGN),
P("C25", "Each time step satisfies its scheme's difference equation",
  "For arbitrary equation coefficients one step of the explicit, implicit and Crank-Nicolson solvers satisfies the central-difference equation of its scheme at every inner grid point, coefficients and source being taken at the time level the scheme prescribes, and has the equation's boundary values at the new time at both ends. The implicit solvers use the matrix solver they were given.",
  ["inputs", "configurations"], "all coefficient functions (time and space dependent), grid sizes and steps for which the system is elliptic",
  "Tests only use constant-coefficient-in-time Black-Scholes, for which a wrong time level or an ignored source cannot be seen.",
  ["src/solver/finite_difference_method"], [("inner domain of the three schemes", "src/solver/finite_difference_method/solver/one_factor")], VGN + " Coefficients are drawn from an elliptic, diagonally dominant range; stability outside it is not claimed."),
P("C26", "A finite-difference price is the last time level at today's quote",
  "Solving takes exactly the requested number of time steps from the payoff to maturity on the grid of the requested domain and is repeatable; the price is the given interpolation of the last level over the grid's points, at the stock's current price, also when the quote has moved since the grid was solved. Domains without extent, fewer than three prices or two times are refused with an argument error; missing interpolation or matrix solver are replaced by library ones.",
  ["inputs", "histories", "configurations"], "all domains, grid sizes, coefficients, quotes and sequences of solve and price",
  "Tests compare two prices with closed forms; an extra or missing time step disappears in the tolerance.",
  ["src/solver/finite_difference_method"], [("march, grid and price of the solver base", "src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp")], VGN + " Re-solving after the rate or volatility changed is not claimed (the grid is computed once per solver)."),
P("C27", "Interpolation goes through its points and is flat outside",
  "On every strictly increasing grid of two or more points interpolation returns the grid's value at each grid point, the first (last) value to the left (right) of it, and in between the straight line through the neighbours (linear) or the parabola through the three neighbouring points (quadratic, linear in the end intervals). It never fails there, and both are exact for straight lines.",
  ["inputs"], "all grids, values and abscissae",
  "Tests interpolate a few points of one grid; grid points, the last interval and tiny grids are where it goes wrong.",
  ["src/numerical_analysis/interpolation"], [("bracket search and interpolation formula", "src/numerical_analysis/interpolation")], VGN),
P("C28", "Linear solvers solve the system they are given",
  "For every non-singular system of their class (tridiagonal and diagonally dominant, or general) the solvers return one value per unknown and the residual vanishes; a singular system is reported by the LU solver as a runtime error. Nothing is carried over from one system to the next.",
  ["inputs"], "all sizes, matrices of the class and right-hand sides",
  "Tests solve one or two small systems, usually symmetric, for which a swap of the off-diagonals is invisible.",
  ["src/numerical_analysis/linear_algebra/matrix_solver"], [("elimination and Eigen decompositions", "src/numerical_analysis/linear_algebra/matrix_solver")], VGN + " Sizes up to a handful are interpreted; floating-point conditioning is not claimed."),
P("C29", "Bases and regressions are the polynomials and fits they are named after",
  "A basis of m functions has, for every m, the n-th monomial, Laguerre, Legendre or Chebyshev polynomial in column n, one row per point; no function at all is an argument error. Least squares returns the least-squares coefficients, ridge those of the penalised normal equations, lasso the soft-thresholded least-squares ones; negative penalties are argument errors.",
  ["inputs"], "all m, points, designs, observations and penalties",
  "Tests use the first two or three functions of a basis at positive points and penalties that hardly bite.",
  ["src/numerical_analysis/regression", "src/numerical_analysis/basis_function"], [("recurrences", "src/numerical_analysis/basis_function"), ("normal equations", "src/numerical_analysis/regression")], VGN + " Lasso is decided as the thresholded fit the code documents, not as the L1 optimum."),
P("C30", "A computation is repeatable and leaves no trace",
  "Pricing, simulating, solving, interpolating or fitting again gives what a fresh object in the same situation gives, whatever was computed before with the object or with others of its class and whatever the order of arguments was; it fails exactly when the fresh one does. Objects never computed with share nothing with those that were. No computation changes a quote, the rate or an option, and none notifies an observer.",
  ["histories", "inputs"], "all pairs of computations with different inputs, on one or several objects of every model, pricer, solver, interpolation, regression and basis",
  "Tests compute once per object; state left in an object, a function static or a class static shows from the second computation on.",
  ["src/model", "src/solver", "src/numerical_analysis"], [("per-object work areas and statics", "src/solver"), ("models' cached parameters", "src/model")], VGN + " Two computations in a row are followed, from process start (function statics initialised at first use).",
  "gated value graphs of two successive computations against a fresh object's, from process start"),
P("C31", "Whatever a library object keeps lives as long as the object",
  "Library objects own or share what they keep: no member borrows an argument by reference, bare pointer, view or weak handle (the market's list of observers excepted, which must not own them), no smart pointer takes over what something else owns, no function hands out a reference into its own frame, and every class other classes derive from may be destroyed through it.",
  ["programs", "histories"], "all orders in which a client drops its handles",
  "Tests keep everything alive until the end of the test; a dangling reference reads plausible values for a long time.",
  ["include", "src"], [("smart-pointer members", "include/solver/monte_carlo/base_mc.h"), ("virtual destructors", "include/payoff/base_payoff.h")],
  "Every class and function of the library is decided; lifetimes inside client code and inside std, Eigen and Boost are not.",
  "ownership rules over the resolved class hierarchy, member types and smart-pointer constructions"),
P("C33", "Amounts keep double precision and counts their full range",
  "No price, rate, time or weight passes through single precision, and no number of simulations, steps, grid points or basis functions, nor a counter running up to one, through a type it may not fit in, anywhere in the library.",
  ["inputs"], "all functions and members of the library, hence all magnitudes",
  "Tests use small counts and tolerances far above single precision.",
  ["include", "src"], [("numeric types of members, locals and conversions", "src/solver/monte_carlo")],
  "A conversion rule on resolved types: sound for what it lists (single precision, integers under 32 bits, 64-bit members and parameters squeezed into 32 bits); accumulated rounding is not claimed.",
  "conversion and width rules over the type-checked syntax tree of every library function"),
P("C35", "Quotes and options are equal exactly when their terms are",
  "Two quotes are equal exactly when price, volatility, presence and value of the dividend are. Two options of one kind (with the same barrier, if any) are equal exactly when their maturities, payoffs and the current quotes of their underlyings are; options of different kinds are never equal when one of these differs. Comparison is symmetric, reflexive, != is its negation, and it follows re-quotes.",
  ["inputs", "histories"], "all pairs of quotes and options of all kinds, before and after re-quoting",
  "Tests compare a few pairs that differ in an obvious term, in one order.",
  ["src/market_data/stock_data.cpp", "src/option/base_option.cpp"], [("equality operators", "src/option/base_option.cpp"), ("equality of quotes", "src/market_data/stock_data.cpp")], VGN),
]
def N(id, title, statement, over, q, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason)
NA = [
N("N01", "Monte Carlo prices converge to the option's value",
  "As the number of simulations grows the Monte Carlo price converges to the discounted risk-neutral expectation at rate one over root N, and the American price to the value of the optimal exercise.",
  ["inputs"], "all options, models and generators", "A test compares a few prices with a wide tolerance.", ["src/solver/monte_carlo"], [("sample mean", "src/solver/monte_carlo")],
  "A statement about limits of random samples: no static argument over the source bounds the sampling error or the regression bias. What is decided instead: the estimator is the sample mean of correctly built paths (C11-C15, C20-C22)."),
N("N02", "Finite-difference prices converge and the schemes are stable",
  "Refining the grid makes the finite-difference price converge to the Black-Scholes price; the implicit schemes are unconditionally stable and the explicit one under its step condition.",
  ["inputs"], "all grids and quotes", "A test compares a few prices with a tolerance.", ["src/solver/finite_difference_method"], [("schemes", "src/solver/finite_difference_method/solver/one_factor")],
  "A statement about the limit of a family of linear recurrences: it is a theorem about the difference equations, not about the source. What is decided instead: the code solves exactly those equations (C24-C26)."),
N("N03", "Rounding stays small",
  "Prices, interpolants and solutions of linear systems are accurate to a small multiple of machine precision.",
  ["inputs"], "all inputs of ordinary magnitude", "Tests compare with tolerances at a few points.", ["src/numerical_analysis", "src/random"], [("floating-point evaluation", "src/numerical_analysis")],
  "The value graphs are compared over the reals; bounding the rounding of loops with data-dependent trip counts needs input magnitudes no static argument over this code has. What is decided: nothing passes through a narrower type (C33)."),
N("N04", "The market may be used from several threads",
  "Quotes may be read, updated and observed from several threads at once with every read seeing one consistent quote.",
  ["schedules"], "all interleavings", "Tests are single-threaded.", ["src/market_data"], [("market mutators", "src/market_data/market_data.cpp")],
  "The library does not provide it: only the creation of the market is synchronised (that is C03), all other accesses are unsynchronised by design and nothing documents otherwise, so there is no guarantee to decide."),
N("N05", "American options cost at least as much as European ones",
  "The price of an American option is never below that of the European option with the same terms, nor below immediate exercise.",
  ["inputs"], "all terms, models and numbers of simulations", "A test compares one pair with a fixed seed.", ["src/solver/monte_carlo/mc_american.cpp"], [("early exercise by regression", "src/solver/monte_carlo/mc_american.cpp")],
  "For a finite sample the inequality is false in general (least-squares exercise is suboptimal and the two estimators use different samples), and its large-sample form is a limit statement; the exercise rule itself is decided in C22."),
]
