#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Market data is always valid; a rejected change changes nothing",
 "After any history of listing stocks, updating price, volatility or dividend yield and setting the risk-free rate, every listed stock has a positive price, a non-negative volatility and a dividend yield that is absent or in [0,1], and queries return exactly the last accepted values. A change that carries such an invalid stock value (NaN included) or updates an unlisted ticker is rejected with an invalid-argument error and leaves the data of every ticker, the set of listed tickers and the rate exactly as they were.",
 ["histories", "inputs"], "every sequence of add/update/set operations over several tickers, valid and invalid values in any position",
 "The tests run one update sequence of valid values on one ticker; they never query the data after a rejected update.",
 ["include/market_data/market_data.h", "src/market_data/market_data.cpp", "src/market_data/stock_data.cpp"],
 [("validation of stock data on construction and on every setter", "src/market_data/stock_data.cpp"), ("ticker lookup that throws for unlisted tickers", "src/market_data/market_data.cpp")],
 ["getStockData/getR after every operation", "exception type of every operation"],
 [("stock table", "ticker to price/volatility/dividend", "MarketData"), ("rate", "risk-free rate", "MarketData")])

prop("C02", "Every live relevant observer is notified exactly once per change",
 "Each accepted price, volatility or dividend update of a ticker notifies, once per registration and after the new value is visible, every live observer registered under exactly that ticker and no other observer; a rate change does the same for all live observers, and a rejected change notifies nobody. This holds for every order of registering, releasing, purging, updating and explicit notifying, and also when observers register, release or purge observers (themselves included) or trigger further updates from inside a notification: observers registered before a notification round and alive throughout it get exactly one call per registration in that round. No observer is called or touched after it has been destroyed, and being registered never keeps an observer alive.",
 ["histories"], "every operation sequence over several observers and tickers, with every re-entrant action an observer can take during a callback",
 "The tests use one or two observers, never release one during a notification and never re-enter the market data from a callback.",
 ["src/market_data/market_data.cpp", "src/market_data/market_data_observer.cpp", "src/option/base_option.cpp"],
 [("list of weak observer references walked on notification", "src/market_data/market_data.cpp"), ("purge of expired observers on option destruction", "src/option/base_option.cpp")],
 ["calls of the observers' update callback", "AddressSanitizer on every access"],
 [("observer list", "registered observers in registration order", "MarketData")])

prop("C03", "Concurrent first accesses all get the one market-data instance",
 "Whatever the interleaving of threads that obtain the market data (directly, or by creating a pricer builder), exactly one market-data object is ever created, every caller receives that same fully constructed object, no access races, and no thread deadlocks.",
 ["schedules"], "all interleavings of 2-3 threads at every shared memory access and lock operation, up to a preemption bound",
 "The test calls the accessor twice from one thread.",
 ["src/market_data/market_data.cpp", "include/market_data/market_data.h"],
 [("lazy initialisation under a mutex", "src/market_data/market_data.cpp")],
 ["pointer returned to every thread, number of objects constructed, data races"],
 [("singleton slot", "shared instance created on first access", "MarketData")])

prop("C04", "Pricing objects built earlier always see the current market data",
 "For any history of market-data changes (spot, volatility, dividend, rate, listing a ticker again) interleaved with pricings, every stock model, Monte Carlo pricer and PDE created before the changes gives the same simulated prices and option values, for the same random draws, as one created afterwards, and the same as one created on an untouched ticker holding the same data. A finite-difference solver prices with the data current when it is first asked and follows later changes of the spot, and pricing never alters market data.",
 ["histories"], "all sequences of market-data changes and pricings up to a depth, for every model and pricer",
 "No test prices anything, let alone before and after a market-data change.",
 ["src/model/base_model.cpp", "src/model/variance_gamma_model.cpp", "include/market_data/market_data.h", "src/solver/monte_carlo/base_mc.cpp", "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp", "src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp"],
 [("models hold a live handle to the ticker's stock data", "src/model/base_model.cpp"), ("rate and stock data are read at simulation time", "src/model")],
 ["simulated paths, Monte Carlo prices, PDE coefficients, FDM prices"])

prop("C05", "Payoffs equal their contract definitions; clones and equality agree",
 "For every spot and strike, the vanilla payoff is max(S-K,0) or max(K-S,0), the digital pays 1 strictly above (call) or strictly below (put) the strike and 0 otherwise, the double digital pays 1 exactly on the closed interval between its strikes, and the floating-strike lookback pays max(S-extreme,0) or max(extreme-S,0). Negative strikes and payoff kinds that do not fit are rejected with an invalid-argument error. A clone is a separate object equal to its original with the same payoff everywhere, and two payoffs are equal exactly when contract kind, call/put side and strikes are all equal.",
 ["inputs"], "all payoff kinds, all pairs of strikes and spots of a dense lattice including boundaries one ulp around the strike",
 "The tests evaluate each payoff at two or three spots and compare a few pairs.",
 ["src/payoff/single_strike/payoff_vanilla.cpp", "src/payoff/single_strike/payoff_digital.cpp", "src/payoff/double_strikes/payoff_double_digital.cpp", "src/payoff/payoff_floating_strike_lookback.cpp", "src/payoff/base_payoff.cpp"],
 [("payoff functors, clone and compare", "src/payoff")], ["payoff value, clone, ==, !=, constructor exceptions"])

prop("C06", "Option factories build exactly the described option or reject",
 "For every parameter set, each option factory either returns an option of its own kind with exactly the requested ticker, maturity, strike(s), barrier level and direction and call/put side, registered exactly once for market-data notifications until it is released, or throws an invalid-argument error and leaves no trace. It throws exactly when a required parameter is missing or has the wrong type, the ticker is unlisted, the maturity is negative or a strike is negative; unrelated extra parameters are ignored. Options compare equal exactly when maturity, payoff and the data of their stocks are equal, and inequality is its negation.",
 ["inputs", "histories"], "every combination of present/missing/mistyped/out-of-range parameters for each of the ten factories and both sides",
 "The tests cover one factory with five parameter sets.",
 ["include/option/base_factory_option.h", "include/option/parameter_object.h", "src/option"],
 [("template method creating payoff then option then registering it", "include/option/base_factory_option.h"), ("typed parameter lookup", "include/option/parameter_object.h")],
 ["returned option's getters, payoff and barrier state; exceptions; notifications received"])

prop("C07", "A Monte Carlo price is the discounted mean of the path payoffs",
 "For every set of simulated paths, the Monte Carlo price of a European, digital, double-digital, Asian, barrier or lookback option is exp(-rT) times the mean over exactly the requested number of paths, each simulated to the option's maturity, of the contract's payoff: on the final price, on the arithmetic or geometric mean of all path prices, on the final price if the barrier was (knock-in) or was never (knock-out) reached at any simulated date with touching counted as reached, or on the path maximum/minimum (final price against the minimum for a floating call and the maximum for a floating put; maximum for a fixed-strike call and minimum for a fixed-strike put). Consequently knock-in plus knock-out equals the European price on the same paths.",
 ["inputs", "configurations"], "all path sets over a price alphabet for small path count and length, and single- and double-spike paths at every position for long ones; all option kinds, sides, strikes, barriers, rates and maturities of the alphabet",
 "No test prices an option by Monte Carlo.",
 ["src/solver/monte_carlo/mc_single_path.cpp", "src/solver/monte_carlo/mc_asian.cpp", "src/solver/monte_carlo/mc_barrier.cpp", "src/solver/monte_carlo/mc_lookback.cpp", "src/option/path_dependent/barrier_option.cpp"],
 [("loop over simulated paths accumulating payoffs", "src/solver/monte_carlo"), ("barrier activity test", "src/option/path_dependent/barrier_option.cpp")],
 ["price returned by the pricer built for the option, with a scripted stock model"])

prop("C08", "American pricing follows the least-squares exercise rule",
 "For every set of simulated paths, the American price is the mean over paths of the cash flow discounted to today at the risk-free rate for every step it travels, where working back from the payoff at maturity a path is exercised at a date exactly when its payoff there is positive and exceeds the continuation value that the configured regression on the configured basis, fitted on the in-the-money paths only, predicts for it. Both the stored-path and the backward (bridge) algorithm obey this, at every step count and also at dates where no path is in the money.",
 ["inputs", "configurations"], "all path sets over a price alphabet for small path and step counts, every exercise decision pattern a scripted regression can cause, several bases and regressions",
 "No test prices an American option.",
 ["src/solver/monte_carlo/mc_american.cpp"],
 [("backward induction with regression on in-the-money paths", "src/solver/monte_carlo/mc_american.cpp")],
 ["price returned by the American pricer with scripted model, basis and regression; arguments the regression receives"])

prop("C09", "Every stock model is risk-neutral: discounted prices are martingales",
 "For every stock model, every market data, positive horizon and step count, and every simulated history (for variance gamma with 1-theta*nu-sigma^2*nu/2 > 0, where the price has a mean), the expected next simulated price given the history is the current price times exp((r-c)dt), so that the expected simulated price at every date t is S0*exp((r-c)t). The expectation is taken over the model's own random draws with the laws the model asks for.",
 ["inputs", "configurations", "histories"], "every prefix history over a draw alphabet and every step index, with the next step's draws integrated by enumerating all branches of an exact quadrature tree",
 "No test simulates a model; a sampled test could only see large violations.",
 ["src/model/gbm_model.cpp", "src/model/heston_model.cpp", "src/model/merton_jump_diffusion_model.cpp", "src/model/kou_model.cpp", "src/model/variance_gamma_model.cpp", "src/model/bates_model.cpp"],
 [("drift with convexity and jump compensation", "src/model")], ["prices returned by the models for scripted draws"])

prop("C10", "Simulated paths follow the configured model's dynamics",
 "For every sequence of random draws each model returns one price per step, built from the current spot by the log-Euler step of its equation: lognormal diffusion; stochastic variance moved by the variance scheme the user chose (explicit Euler by default, Milstein, or a user-defined one) with the given correlation and variance truncated at zero where it is used; normal jumps (Merton, Bates) or double-exponential jumps up with the given probability and down otherwise (Kou), with the given intensity per unit time; gamma time change with mean dt and variance nu*dt (variance gamma). All prices stay finite and positive, each depends only on draws up to its own date, and the backward step is the Brownian bridge between today's spot and the next simulated price.",
 ["inputs", "configurations"], "all draw sequences over an alphabet for up to 3-4 steps, and all draw sequences with at most two deviations for long paths; all models and parameter sets of the alphabet",
 "No test simulates a model.",
 ["src/model/gbm_model.cpp", "src/model/heston_model.cpp", "src/model/merton_jump_diffusion_model.cpp", "src/model/kou_model.cpp", "src/model/variance_gamma_model.cpp", "src/model/bates_model.cpp", "src/model/discretization"],
 [("per-step update of the simulated state", "src/model"), ("variance discretisation strategies", "src/model/discretization")],
 ["prices returned for scripted draws; distribution parameters the model requests"])

prop("C11", "Generators are reproducible, independent and read points in order",
 "Two pseudo-random generators with the same seed produce the same stream for every sequence of distributions, different seeds produce different streams, and drawing from one generator never affects another that uses its own distribution objects. A quasi-random generator (Sobol or Faure) of dimension d returns, through the distribution's quantile function, the coordinates of consecutive points of its sequence started at its seed (the origin is skipped), d draws per point and in coordinate order, strictly inside (0,1), whatever distributions are used.",
 ["inputs", "histories"], "all seeds of a set closed under single-bit flips, all dimensions of the bound, and all interleavings of draws from two generators and two distributions",
 "No test constructs a generator.",
 ["src/random/number_generator"],
 [("seeded Mersenne Twister", "src/random/number_generator/pseudo_random_generator.cpp"), ("coordinate cursor over the current point", "src/random/number_generator/sobol_quasi_random_generator.cpp")],
 ["values returned by the generators with scripted and real distributions"],
 [("cursor and current point", "next coordinate to hand out", "quasi-random generators")])

prop("C12", "The standard normal quantile function is accurate on all of (0,1)",
 "For every quantile strictly between 0 and 1 the standard normal inverse CDF is within 1e-8*(1+|x|) of the true value x down to tail probabilities of 1e-15 (and within 1e-3*(1+|x|) in the remaining extreme tail), is odd around one half and non-decreasing, both up to rounding; any quantile outside the open interval is rejected with an invalid-argument error.",
 ["inputs"], "every point of a lattice of quantiles covering the central region, both tails down to the smallest positive numbers and the region boundaries",
 "No test evaluates the function.",
 ["src/random/distribution/standard_normal_distribution.cpp"],
 [("Beasley-Springer-Moro rational and Chebyshev approximation", "src/random/distribution/standard_normal_distribution.cpp")], ["inv_cdf value or exception"])

prop("C13", "Distributions sample the law given by their parameters",
 "Uniform(a,b), Normal(mu,sigma), Exponential(lambda), Poisson(lambda) and Gamma(shape,rate) draws follow exactly that law: fed with every point of a lattice of generator outputs, the draws have that law's support, mean, variance and distribution function up to the lattice error, and for the same generator state they scale and shift with the parameters. Parameters outside the law's domain are rejected with an invalid-argument error on construction.",
 ["inputs"], "every point of a lattice of raw generator words, for every parameter set of the alphabet",
 "No test draws from a distribution.",
 ["src/random/distribution"],
 [("standard-library engines configured from the constructor parameters", "src/random/distribution")], ["values drawn from a generator whose raw output the check controls"])

prop("C14", "Matrix solvers return the solution of the linear system",
 "For every right-hand side, the sparse LU and the partial-pivoting LU solver return x with Ax=b (to rounding) for every well-conditioned nonsingular matrix, and the tridiagonal solver does so for every strictly diagonally dominant tridiagonal matrix of size at least two and rejects smaller ones with an invalid-argument error. The inputs are left unchanged and repeated calls give the same answer.",
 ["inputs"], "all matrices and right-hand sides over small integer alphabets up to size 3-4, and single-entry deviations of larger tridiagonal systems",
 "No test solves a linear system.",
 ["src/numerical_analysis/linear_algebra/matrix_solver"],
 [("Thomas forward sweep and back substitution, LU factorisations", "src/numerical_analysis/linear_algebra/matrix_solver")], ["residual of the returned vector"])

prop("C15", "Interpolation reproduces nodes, polynomials and clamps outside",
 "On every strictly increasing grid, both interpolators return the node value at every node, the first or last node value at or beyond the ends, and a finite value everywhere else: linear interpolation the point on the chord of the bracketing interval, quadratic interpolation the chord in the first and last interval and otherwise the parabola through the bracketing nodes and the node before them, so that linear data (both) and quadratic data (quadratic, inside) are reproduced exactly.",
 ["inputs"], "all grids that are subsets of a node alphabet, all data patterns, all queries at nodes, one ulp around them, inside every interval and outside; large grids at every interval",
 "No test interpolates.",
 ["src/numerical_analysis/interpolation"],
 [("interval search and Lagrange formula", "src/numerical_analysis/interpolation/quadratic_interpolation.cpp")], ["interpolated value; AddressSanitizer"])

prop("C16", "Basis functions are the polynomials they are named after",
 "For every vector of abscissae and every positive number n of functions, the monomial, Chebyshev (first kind), Legendre and Laguerre bases return a matrix with one row per abscissa and n columns holding the polynomials of degree 0 to n-1 of that family; zero functions is rejected with an invalid-argument error.",
 ["inputs"], "all families, all sizes up to a bound and all abscissae of a lattice, against closed-form coefficients",
 "No test generates a basis.",
 ["src/numerical_analysis/basis_function"],
 [("three-term recurrences", "src/numerical_analysis/basis_function")], ["matrix returned by generate"])

prop("C17", "Regressions return the minimiser they stand for",
 "For every design matrix and response, least squares returns the minimum-norm minimiser of the squared residual (also for rank-deficient designs and fewer rows than columns), ridge returns the minimiser of the squared residual plus lambda times the squared coefficient norm, and lasso returns the least-squares coefficients each moved toward zero by lambda and set to zero where smaller than lambda. A negative lambda is rejected with an invalid-argument error.",
 ["inputs"], "all design matrices and responses over small alphabets up to 4x3, all penalties of the alphabet",
 "No test fits a regression.",
 ["src/numerical_analysis/regression"],
 [("SVD least squares, regularised normal equations, soft thresholding", "src/numerical_analysis/regression")], ["coefficients returned by solve"])

prop("C18", "Finite-difference schemes solve their PDE exactly where they must",
 "For every grid size, number of time levels, domain and coefficient functions, the explicit, implicit and Crank-Nicolson solvers advance the initial condition with the user's PDE coefficients, source and boundary values to exactly the final time, so that they reproduce to rounding every solution that is quadratic in space and linear in time (Crank-Nicolson also quadratic in time) whenever the step is stable, with every matrix solver. Solving again returns the same grid, and the price is the chosen interpolation of that grid at the current spot.",
 ["inputs", "configurations"], "all grid sizes and time-level counts up to a bound, several coefficient functions, domains, matrix solvers and interpolators",
 "No test runs a finite-difference solver.",
 ["src/solver/finite_difference_method/solver/one_factor"],
 [("time marching loop", "src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp"), ("assembly of each scheme", "src/solver/finite_difference_method/solver/one_factor")],
 ["grid returned by solve, price returned by calculatePrice, for scripted PDEs with known solution"])

prop("C19", "Finite-difference prices of European options match Black-Scholes",
 "For every European call and put, rate, dividend yield, volatility, maturity (zero included) and stable grid, all three schemes price within discretisation error of the Black-Scholes value and satisfy put-call parity, and the option's PDE has the Black-Scholes coefficients, the payoff as initial condition and, at time to maturity t, the boundary values 0 and x*exp(-ct)-K*exp(-rt) for a call and K*exp(-rt) and 0 for a put.",
 ["inputs", "configurations"], "all combinations of contract, market and grid parameters of the alphabet for the three schemes",
 "No test prices with finite differences.",
 ["src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp", "src/solver/finite_difference_method/solver/one_factor"],
 [("Black-Scholes PDE coefficients, boundary and initial conditions", "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp")],
 ["PDE functions, solve grid, calculatePrice"])

prop("C20", "Pricer builders and the solver use exactly what was configured last",
 "After any sequence of builder calls, building fails with a logic error until a fitting option has been set, an option of another kind is rejected with an invalid-argument error, and every pricer built prices the option set last with the stock model, market data, regression and basis set last; without a stock model it simulates a 52-step geometric Brownian motion on that option's own ticker and the configured market data, also when the builder is reused. Pricers built earlier are unaffected by later builder calls; the solver fails with a logic error without a pricer and otherwise runs the pricer and path count set last.",
 ["histories"], "all sequences of builder and solver calls up to a depth for each of the eight builders",
 "No test uses a builder or the Monte Carlo solver.",
 ["src/solver/monte_carlo/builder", "src/solver/monte_carlo/mc_solver.cpp"],
 [("builder state with default model", "src/solver/monte_carlo/builder"), ("solver facade", "src/solver/monte_carlo/mc_solver.cpp")],
 ["prices of the pricers built, exceptions"],
 [("builder configuration", "option, model, market data, strategies set so far", "builders")])

prop("C21", "Independent pricing methods agree on the same contract",
 "For every contract and market of the domain, the Monte Carlo price over all paths of a recombining up/down tree run through the real pipeline (generator, geometric Brownian motion, builder, pricer, solver) equals the tree's exact expectation and converges to the closed-form value; quasi-random Monte Carlo on a full set of Sobol or Faure strata, closed forms and finite differences agree within their discretisation error; and put-call parity, knock-in/knock-out parity and the ordering geometric Asian <= arithmetic Asian (calls), knock-out <= European <= fixed-strike lookback, hold.",
 ["inputs", "configurations"], "all contracts and markets of the alphabet; all paths of the tree",
 "No test prices an option.",
 ["src/model/gbm_model.cpp", "src/solver", "src/random"],
 [("whole pricing pipeline", "src/solver")], ["prices returned by the solvers"])

prop("C22", "Invalid configurations are rejected when they are constructed",
 "Every stock model, generator, basis and regression rejects at construction, with a logic error (invalid argument included), parameters outside its documented domain (correlation outside [-1,1], negative initial variance or volatility of variance (for Bates these and the mean reversion must be positive), jump probability outside [0,1], upward jump rate not above 1, downward jump rate not above 0, jump intensity, jump volatility or gamma variance rate not positive, unlisted ticker, zero dimension, zero basis functions, negative penalty) and accepts every parameter inside it, boundary values included; what it accepts simulates finite positive prices without error (variance gamma while 1-theta*nu-sigma^2*nu/2 > 0).",
 ["inputs"], "all combinations of in-domain, boundary and out-of-domain parameter values for every constructor",
 "No test constructs any of these objects.",
 ["src/model", "src/random/number_generator/base_generator.cpp", "src/numerical_analysis"],
 [("constructor validation", "src/model")], ["exceptions from constructors; simulated prices"])

prop("C23", "Pseudo-random Monte Carlo error shrinks like one over root N",
 "For every contract and model the pseudo-random Monte Carlo price converges to the model price with an error of order one over the square root of the number of paths.",
 ["inputs"], "all path counts and seeds",
 "A statistical statement over all seeds and unbounded path counts; a test sees one seed.",
 ["src/solver/monte_carlo", "src/random"], [("averaging over independent paths", "src/solver/monte_carlo")], ["price as a function of N"])

prop("C24", "Independent pricing jobs on several threads do not interfere",
 "Threads that price at the same time, each with its own generator, stock model, pricer builder and solver, while sharing the market data, already created options and payoffs, and stateless strategies (interpolations, matrix solvers, basis functions, regressions, variance schemes), never race and never deadlock, and under every interleaving each obtains exactly the number it obtains when it runs alone. Reading shared market data, options and payoffs at the same time is equally safe.",
 ["schedules"], "all interleavings of 2-3 pricing threads at their synchronisation operations up to a preemption bound, a happens-before race check on every memory access of every execution",
 "The tests are single-threaded, and hidden shared state (a static buffer, a cache in a const method) gives right answers in any single-threaded test.",
 ["src/market_data/market_data.cpp", "src/option/base_option.cpp", "src/model", "src/random", "src/solver", "src/numerical_analysis"],
 [("const market-data queries and option payoffs", "src/market_data/market_data.cpp, src/option/base_option.cpp"), ("strategies without state", "src/numerical_analysis"), ("generators and pricers owned by one thread", "src/random, src/solver")],
 ["price obtained by every thread; memory accesses of all threads"])

prop("C25", "Printed descriptions show the contract and current market data",
 "Printing an option shows, whatever changes the market data went through before, its kind, call/put side, maturity, strike(s) and ticker together with the price, volatility, dividend yield (only when there is one) and risk-free rate of that moment; payoffs and stocks print their own part of it. Numbers follow the number format of the stream, and printing leaves the stream's format and state, the option and the market data as they were.",
 ["inputs", "histories"], "all histories of market-data changes up to the depth bound for every option kind, all contracts, stocks and payoffs of the value lattices, 5 number formats",
 "A test that prints checks one snapshot; staleness needs a change after creation.",
 ["src/option/base_option.cpp", "src/market_data/stock_data.cpp", "src/payoff"],
 [("printing of options, stocks and payoffs", "src/option/base_option.cpp, src/market_data/stock_data.cpp, src/payoff")], ["text written; stream state; market data"])

prop("C26", "A parameter set returns exactly what was set last, or rejects",
 "After any history of setting and copying, reading a parameter under its name with the type it was set with returns exactly the value set last under that name in that set, whatever the name and value; reading a name that was never set, or with another type, is rejected with an invalid-argument error, hasParameter tells exactly whether the name was set, and copies are independent of each other.",
 ["inputs", "histories"], "all histories up to the depth bound over two sets, all values and names of the lattices",
 "The tests read one valid and one missing parameter.",
 ["include/option/parameter_object.h", "src/option/parameter_object.cpp"],
 [("ParameterObject", "include/option/parameter_object.h")], ["values returned; exceptions"])

prop("C27", "Pricing objects own what they use and leave nothing behind",
 "A pricer, solver, model, option, generator or numerical component keeps everything it needs alive: releasing the caller's handles on the option, market data, model, generator, builder and strategies, in any order and at any time, and destroying or overwriting the arguments it was built from, never changes a later result. Once the last owner is gone everything it owned is destroyed exactly once and all memory it used is returned, whatever base it is destroyed through.",
 ["histories", "configurations"], "every order of releasing the handles with results taken after every release, for every pricer kind, model and finite-difference scheme with every strategy; all sequences of creating, using and destroying up to a depth",
 "The tests keep every object alive until the end and never count destructions or allocations.",
 ["include/solver", "src/solver", "src/model", "src/option", "include/payoff", "src/random", "src/numerical_analysis"],
 [("shared ownership of collaborators", "include/solver/monte_carlo, include/solver/finite_difference_method, include/model"), ("payoff cloning and argument copies", "src/payoff, src/option"), ("polymorphic destruction", "include")],
 ["results after releases; expiry of weak handles; counted allocations"],
 [("ownership", "which handles the caller still holds", "shared pointers")])

prop("C28", "A failed operation changes nothing that matters and can be repeated",
 "When an operation fails midway (memory runs out, or a random generator, market data source, observer, regression, basis, matrix solver, interpolation, variance scheme or differential equation throws), the failure reaches the caller, no value is half changed, other stocks and registrations are untouched and no memory is lost. Repeating the operation on the same objects then gives exactly what it would have given without the failure, and so does everything used afterwards.",
 ["fault_sequences", "histories"], "every allocation and every collaborator call of every operation as the point of failure, sequences of failures before the successful repetition up to a bound",
 "The tests never make an operation fail midway.",
 ["src/market_data/market_data.cpp", "include/option/base_factory_option.h", "src/solver", "src/model", "src/random/number_generator", "src/numerical_analysis"],
 [("state kept across calls: finite-difference march, solver's pricer, registrations, generators' positions", "src/solver/finite_difference_method/solver, src/solver/monte_carlo, src/market_data/market_data.cpp, src/random/number_generator")],
 ["exceptions; values, prices and solutions after the failure and after the repetition; counted allocations"],
 [("progress", "what an interrupted operation has done so far", "solvers, market data")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
