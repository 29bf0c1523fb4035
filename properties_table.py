"""What each check builds and runs (see DESIGN.md)."""
MD = ["market_data"]
TABLE = {
 "C01": dict(src=["c01.cpp"], modules=MD,
   bounds="full value lattice for one operation after every subset of 3 listed tickers; all histories of depth 3 over 44 operations on 3 tickers, depth 4 over 30 operations on 2 tickers (depth 5 thorough); up to 200 tickers; 120-operation histories with one deviation; ~250 values of either sign over every magnitude of double through every operation; 12 ticker-name shapes (embedded zeros, spaces, prefixes, 300 characters) pairwise after every listing subset",
   assumptions=["values outside the lattice behave like their neighbours in it", "+infinity as a price is not claimed either way"]),
 "C02": dict(src=["c02.cpp"], modules=["market_data","payoff","option"],
   bounds="all histories of depth 4 over 21 operations and depth 5 (6 thorough) over 12; all populations of up to 4 observers on 2 tickers with up to 2 (3 thorough) re-entrant reactions of 13 kinds per round, nesting depth 3; populations up to 257 with one reaction at every boundary position",
   assumptions=["callbacks do not throw", "notification is synchronous"]),
}
OPT = ["market_data", "payoff", "option"]
TABLE.update({
 "C05": dict(src=["c05.cpp"], modules=["payoff"],
   bounds="61 strikes (0, denormals, one ulp around 100, powers of two, up to the largest double) x ~140 spots placed around each strike for all kinds and sides; all strike pairs for the double digital; strikes 0..400 step 2 (0..400 step 0.5 thorough) x spots 0..800 step 0.25; all ordered pairs of 218 payoffs for equality; 17 strikes (pairs) x 3 types x 4 kinds for construction",
   assumptions=["spots and strikes outside the lattice behave like their neighbours in it", "NaN inputs are not claimed"]),
 "C06": dict(src=["c06.cpp"], modules=OPT, ldflags=["-Wl,--wrap=_ZN12OptionPricer6Option6updateEv"],
   bounds="every combination of 6-13 states (valid values, missing, each wrong type, negative) per required parameter for 10 factories x 2 sides x 3 sets of unrelated parameters; 27x27 values for every pair of numeric fields; all creation/release/rejection histories of depth 5 (6 thorough); all pairs of 10 kinds x sides x maturities x strikes x 3 tickers for equality, and differences of one ulp in the stock data",
   assumptions=["NaN parameters are not claimed", "two options are compared by maturity, payoff and stock data as documented, not by option class"]),
})
ALLM = ["market_data", "payoff", "option", "random", "model", "numerical_analysis", "solver"]
TABLE.update({
 "C07": dict(src=["c07.cpp"], modules=ALLM,
   bounds="all path sets N x steps (1x1..1x6, 2x1..2x3, 3x1, 3x2, 4x1, 6x1; more in thorough) over 3-5 prices touching strikes and barriers, for 9 contract kinds x sides x strikes x barriers x directions; 7 ulp-boundary prices on 3 steps; one spike at every position of paths up to 257 (300) steps, two spikes up to 20 (52); up to 100001 (131073) paths, in thorough one run of 2^31+3 paths per pricer family; 19 maturities x 13 rates; 9 price scales x 9 strikes; all histories of 4 pricings",
   assumptions=["paths come from a scripted stock model; prices outside the alphabet behave like their neighbours", "zero paths are not claimed"]),
 "C08": dict(src=["c08.cpp"], modules=ALLM,
   bounds="all path sets up to 1x5, 2x3, 3x3, 4x2 over 3-4 prices with every outcome (3-6 per date, ties included) of a scripted regression, both algorithms and sides; 4 bases x 4 sizes x 4 regressions on small path sets; up to 300 steps with gaps of dates without in-the-money paths; up to 4097 (40000) paths; 8 rates x 9 maturities x 5 scales x 3 distances from the strike; zero-volatility runs of the whole pipeline",
   assumptions=["decisions closer than 1e-11 relative are left to rounding", "what the regressions compute is property C17"]),
})
NA = ["numerical_analysis"]
TABLE.update({
 "C14": dict(src=["c14.cpp"], modules=NA,
   bounds="all integer matrices 1x1 (6 symbols), 2x2 (7), 3x3 (3; 4 thorough), 4x4 (subset of 0/1 rows; all 0/1 thorough) that are nonsingular, 5-7 right-hand sides each; permuted systems up to 30x30 with every single-entry deviation; all strictly dominant tridiagonal matrices n=2..4 over 2-7 symbols with 3 storage forms; tridiagonal n up to 200 (500) with a deviation at every row; 7 scales x 5 dominance ratios; sizes 0 and 1",
   assumptions=["residual tolerance 1e-9 relative to the largest term of a row", "matrices outside the alphabets behave alike"]),
 "C15": dict(src=["c15.cpp"], modules=NA,
   bounds="all subset grids of 6 coordinate sets of 8 nodes, all data over {0,1,-2} up to 4 (6) nodes and unit, linear, quadratic, oscillating data above; every interval of grids up to 1025 (4097) nodes; queries at nodes, one ulp around, 9 fractions per interval, outside and infinite",
   assumptions=["tolerance 1e-11 of the data range times the local grid ratio"]),
 "C16": dict(src=["c16.cpp"], modules=NA,
   bounds="4 families x 1..40 functions x 201 abscissae against explicit coefficients in quadruple precision; all vectors of length 0..3 over 6 abscissae; vectors up to 4097",
   assumptions=["tolerance 1e-12 of the sum of absolute terms"]),
 "C17": dict(src=["c17.cpp"], modules=NA,
   bounds="all designs 1x1..4x3 over 2-4 symbols with all responses over 2-4 symbols, rank-deficient ones included, 9 penalties; designs up to 1000x16 with deviating rows and dependent columns; 15 scalings; 11 penalties for the domain",
   assumptions=["optimality conditions checked to 1e-9 relative", "ridge with zero penalty is claimed for full column rank only"]),
})
RND = ["random"]
TABLE.update({
 "C12": dict(src=["c12.cpp"], modules=RND, cflags=["-fext-numeric-literals"], ldflags=["-lquadmath"],
   bounds="300001 (3 x 10^6) equally spaced quantiles, 20001 (200001) geometrically spaced ones down to the smallest positive double and 10001 up to the largest below one, all powers of two with their neighbours and complements, 401 points at three spacings around 17 region boundaries, all points of base 2, 3, 5, 7, 11, 13 nets; 14 values outside the domain",
   assumptions=["quantiles between lattice points behave like their neighbours", "accuracy claimed: 1e-8(1+|x|) down to tail probability 1e-15, 1e-3(1+|x|) beyond; order up to rounding (1e-13)", "NaN is not claimed"]),
})
TABLE.update({
 "C13": dict(src=["c13.cpp"], modules=RND + ["market_data", "payoff", "option", "model"],
   bounds="every point of lattices of raw generator words: 2000 for uniform and exponential and 800 points down to 2^-51 at either end, 80^2 (200^2) for first and second normal draws, 40^3 (64^3) and 22^4 (32^4) for gamma, 40^3 (60^3) for small Poisson means, 12^3 x 3 draws for large ones (and, where they are not the standard library's, 4 million draws over the states of 8 generators); 6-7 parameter sets per law; scaling and shifting over 403 engine states, 20-100 parameter pairs, 6 draws; all interleavings of 4+4 draws from all pairs of 13 distributions; 13x13 parameter values for the domain",
   assumptions=["distribution functions compared up to the lattice error (0.001 to 0.03)", "lattice points for which a rejection sampler asks for further words are left out: the law is that of the accepted ones", "NaN parameters are not claimed"]),
})
TABLE.update({
 "C11": dict(src=["c11.cpp"], modules=RND + ["market_data", "payoff", "option", "model"],
   bounds="22 seeds x 4 dimensions x all sequences of 4 (5) distributions out of 6; 5000-draw streams; every seed against its 32 single-bit flips and successor at 3 lags; all interleavings of 5+5 (7+7) draws of two generators of any kind, seed and dimension 1-3; all lifetimes of other generators over 6 (7) operations; Sobol and Faure points for dimensions 1..40, 52, 64, 100, 128, 252, 365, 500 x 22 seeds, 9000 (70000) points for long streams; all sequences of 7 (9) distributions out of 3; all dyadic strata up to 2^11 (2^13) in 16 dimensions; an independent Faure construction for dimensions 1..12",
   assumptions=["each generator is used with distribution objects of its own (a normal distribution keeps its second value)", "Sobol reference: Boost's direction numbers, cross-checked by stratification"]),
})
MOD = RND + ["market_data", "payoff", "option", "model"]
TABLE.update({
 "C10": dict(src=["c10.cpp"], modules=MOD,
   bounds="6 models; every parameter set (1-19 per model, 3 variance schemes) x 6 markets x 5 maturities x 1-3 steps with up to 2-3 deviating draws out of 5 normals, 3-4 jump counts, jump sizes, directions, time changes; all draw sequences over 2-5 normals and 2-4 counts for 1 to 2-5 steps; paths of 10 (12) steps with 2 deviating draws and 52, 252 (365) steps with one, anywhere; up to 150 jumps in a step; 3 successive simulations of one model; 5 variance values per step from a user-defined scheme; 3456 arguments of each variance scheme; 1512 bridge arguments; spots from 1e-8 to 1e7, volatilities to 3, horizons to 30, draws to 8 deviations and extreme parameter sets for 1-2 steps",
   assumptions=["draws are answered from standardised scripts scaled by the law the model asks for", "either standard construction of two correlated normals is accepted", "relative tolerance 1e-9", "T > 0; variance gamma with 1 - theta nu - sigma^2 nu/2 > 0.01"]),
})
TABLE.update({
 "C09": dict(src=["c09.cpp"], modules=MOD,
   bounds="6 models x 1-5 parameter sets x 6 markets x 4 maturities x 1, 2, 12 steps for the first step; every later step of 3-step (4-step) paths after every history with at most one (two) deviating draws; steps 0, 1, 25, last but one and last of 52- and 252-step paths; the step's draws integrated over all nodes of Gauss-Hermite (6-24 nodes), generalised Gauss-Laguerre (14-28) and direction cells, for 0, 1 and 2 jumps; and one step of 1 or 3/100 over wide lattices of every parameter, market value and horizon: 12960 GBM, 116640 Heston, 5760 Bates, 20736 Merton, 570 Kou and 3840 variance gamma combinations",
   assumptions=["counts above 2 jumps are summed in closed form after checking that the expected price is multiplicative in the number of jumps (their pathwise effect is property C10)", "quadrature error below 1e-7 for volatilities and jump laws of the parameter sets", "T > 0; variance gamma with 1 - theta nu - sigma^2 nu/2 > 0.3"]),
})
TABLE.update({
 "C18": dict(src=["c18.cpp"], modules=ALLM,
   bounds="3 schemes x 11 coefficient sets (constant, space-, time-dependent, convection-dominated, Black-Scholes) x 7 manufactured solutions (3 more, quadratic in time, for Crank-Nicolson) x grids J=3..10, N=2..9 x 3 domains x 4 horizons x 4 matrix solvers; J up to 64 (201), N up to 1001 (20001); every N from 2 to 501 (1201) and every J from 3 to 152 and five up to 400 (all up to 402); zero time; all orders of 4 calls of solve, price and spot changes x 4 interpolations x 5 matrix solvers",
   assumptions=["grids with non-positive diffusion, cell Peclet number above 2 or, for the explicit scheme, an unstable step are outside the claim", "tolerance 1e-8 of the solution's size", "N >= 2, J >= 3 (4 for the tridiagonal solver)"]),
})
TABLE.update({
 "C19": dict(src=["c19.cpp"], modules=ALLM,
   bounds="3 schemes x call and put x 3 strikes x 5 maturities (0 included) x 4 rates x 4 dividend yields x 4 volatilities x 3 (5) grids x 3 spots x 2 matrix solvers; 4 scales x 18 spots x 3 interpolations; the real market data with 4 matrix solvers; extreme rates, yields, volatilities; 72 x 34 combinations of grid points (4..1001) and time levels (2..2000) with J^2 N up to 3e6 (6e7) in 2 (6) markets; 3 (7) strikes up to 1e5 x 9 maturities from 1e-6 to 30 years x 4 (6) rates x 6 volatilities from 0.02 to 2 x 2 domains; 15000 parameter sets x 180 (t,x) points for the PDE's functions; grid refinement",
   assumptions=["the discretisation error is measured by the textbook theta scheme on the same grid; a grid on which that scheme is off by more than 6 percent of the strike (or, explicit, unstable) is outside the claim", "at the right boundary of the domain x >= K"]),
})
TABLE.update({
 "C20": dict(src=["c20.cpp"], modules=ALLM,
   bounds="all histories of 6 (7) calls out of 8 (set either of 2 options, a wrong option, either of 2 market data, either of 2 models, build) for 10 option kinds on 8 builders, 4 (5) calls out of 12 for American; every pricer built is priced at once, after the builder is gone and again; all wrong option kinds; 17 maturities from 0 to 40 years x 2 contracts x 3 market data x 3 models; histories of up to 14 (30) builds with two settings anywhere; all solver histories of 7 (8) calls out of 5",
   assumptions=["after a rejected option, building may fail or use the previous option until a fitting one is set", "the default model is recognised on stocks of zero volatility (deterministic paths over 52 dates) and by two paths differing otherwise", "null models, options and pricers are not claimed"]),
})
TABLE.update({
 "C22": dict(src=["c22.cpp"], modules=RND + ["market_data", "payoff", "option", "model", "numerical_analysis"],
   bounds="every combination of 3-9 values per parameter (inside, on the boundary, one ulp outside, far outside) for the 6 models, 3 variance schemes, 8 tickers; 3 generators x 11 dimensions x 8 seeds; 4 bases of 0..40 functions; 12 penalties; every accepted model simulates 3 paths and 3 final prices for each of 3 seeds (and 3 generators for the models that use normal draws only)",
   assumptions=["NaN and infinite parameters are not claimed", "parameters for which prices under- or overflow double precision (upward jump rate below 1.2, downward below 0.5) are only constructed", "variance gamma simulated while 1 - theta nu - sigma^2 nu/2 > 0.01"]),
})
TABLE.update({
 "C04": dict(src=["c04.cpp"], modules=ALLM,
   bounds="all histories of 4 (5, for every other kind) operations out of 14 (12 kinds of market-data change, rejected ones and other stocks included, pricing, creating a further object) for 6 models and 10 pricer kinds; the same for the American backward algorithm, the Black-Scholes PDE (depth 4, 5) and the three finite-difference solvers (depth 4, 5)",
   assumptions=["the same draws are enforced with a scripted generator, or with equally seeded generators used equally often", "after a first pricing a finite-difference solver keeps its volatility, dividend and rate, as stated"]),
})
TABLE.update({
 "C21": dict(src=["c21.cpp"], modules=ALLM,
   bounds="all 2^n paths (n = 1..13) of the up/down tree for 9 contract kinds x sides x 3 maturities x 2-6 strikes and barriers x 24 markets against dynamic programming on the recombining tree; American options on all trees of 1..6 (7) steps with a separating basis (3 families) against the tree's optimal stopping value; trees up to 14 (18) steps, 4096 / 90^2 / 24^3 equal-probability strata and Sobol and Faure nets of dimension 1, 2, 4, 12 from 3 seeds against the closed forms; three finite-difference schemes against strata and closed forms; n paths of n = 52..1000 (thorough: more combinations) steps with one or two deviating moves around five base paths for 9 contract kinds against the payoffs of the explicit paths; 9 parities and 12 orderings for 6 models x generators x seeds x 3 path counts, up to 400 steps",
   assumptions=["tolerances: 1e-9 against the tree, 0.45 S sigma sqrt(T)/n tree to closed form, 0.2 to 10 percent of the payoff scale for strata and nets depending on dimension, 0.2 for finite differences", "strikes and barriers lie off the tree's nodes"]),
})
TABLE.update({
 "C03": dict(src=["c03_bodies.cpp", "c03.cpp"], plain=["c03.cpp"], modules=ALLM, san=False, opt=["-O1", "-g1"], repo_cflags_all=["-fsanitize=thread"], harness_cflags=["-fsanitize=thread"],
   ldflags=["-ldl", "-rdynamic"],
   technique="stateless model checking of the real code under a controlled scheduler (all interleavings within a preemption bound, switching at every memory access and synchronisation operation) with a happens-before race detector",
   bounds="2 threads of 4 kinds (accessor once or twice, builders, accessor and reads) with up to 3 preemptions (2 for builders on both, 4 for single accesses; one more thorough), 3 threads with up to 2 (3), anywhere among their memory accesses, locks, atomics, once-flags and static initialisations, every order at blocking and termination; race and use-after-free check on every access",
   assumptions=["sequentially consistent execution; weaker orders are covered by the happens-before race check", "code inside the C++ runtime library is not instrumented", "a thread spinning on an unchanging atomic is made to yield"]),
 "C24": dict(src=["c24_bodies.cpp", "c24.cpp"], plain=["c24.cpp"], modules=ALLM, san=False, opt=["-O1", "-g1"], repo_cflags_all=["-fsanitize=thread"], harness_cflags=["-fsanitize=thread"],
   ldflags=["-ldl", "-rdynamic"],
   technique="stateless model checking of the real code under a controlled scheduler (all interleavings of synchronisation operations within a preemption bound) with a happens-before race detector",
   bounds="16 jobs (6 models, 2 variance schemes, 3 generators, all 8 builders, 4 bases, 3 regressions, 3 finite-difference schemes, 3 matrix solvers, 2 interpolations, reads); all pairs of jobs with 1 preemption (2 thorough for the 12 shorter jobs), equal pairs with 2 (3 jobs; all thorough), 16 triples with 1; switches at every operation on a synchronisation object that is not private memory of the running thread; race check on every access",
   assumptions=["creating and releasing options and changing market data are left to one thread", "between synchronisation operations a race-free execution does not depend on the interleaving", "code inside the C++ runtime library is not instrumented"]),
})
TABLE.update({
 "C25": dict(src=["c25.cpp"], modules=OPT,
   bounds="all histories of 3 (4) market-data changes out of 9 kinds (rejected ones, other stocks, listing again included) for 10 option kinds x sides x 5 number formats, printed after every change; 13 maturities x 13 strikes (pairs for the double digital) x 4 tickers; 12 x 13 x 5 stocks; 4 payoff kinds x sides x 13 x 13 strikes; printing twice, between other output, to a failed stream",
   assumptions=["fields are recognised by their labels", "the barrier level and direction are not shown and not claimed"]),
 "C26": dict(src=["c26.cpp"], modules=OPT,
   bounds="all histories of 3 (4) operations (set one of 4 names to one of 6 values in either of two sets, copy, move, self-assign), all 9 names read back with all 4 types and both sets compared after every operation; 163 values (every magnitude of double, NaN, infinities, int limits, strings up to 300 characters) x 9 names x 5 previous values x other entries; up to 541 names with each replaced; 8 kinds of argument",
   assumptions=["values outside the lattices behave alike"]),
})
WRAPA = ["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=__cxa_demangle"]
TABLE.update({
 "C27": dict(src=["c27.cpp"], modules=ALLM, ldflags=WRAPA,
   bounds="10 option kinds x 6 models x sides: every order of releasing option, market data, generator, model, builder, variance scheme, regression and basis, a price after every release (thorough: also with pseudo-random, Sobol and Faure generators); 3 schemes x 4 matrix solvers x 3 interpolations x 2 grids x own or library equation: every release order, quick: one kind of use after every release or one use at every position (thorough: every choice of use at every position); 50 objects built from arguments that are then overwritten and destroyed; payoff clones and handles of 4 payoffs; histories of 4 (5) solver operations; allocations balanced over all sequences of 2 (3) of 63 create-use-destroy jobs",
   assumptions=["an object that keeps allocating once (a cache, a registry) is not a leak: it has to grow five times in a row", "AddressSanitizer decides use after destruction in the code the check compiles"]),
 "C28": dict(src=["c28.cpp"], modules=ALLM, ldflags=WRAPA,
   bounds="every operator-new allocation and every collaborator call of the operation fails, in sequences of 2 failures (1 for option creation and Monte Carlo prices in the quick tier; 3 for market data and components in the thorough tier) before the repetition: 9 market-data operations x tickers x observers, throwing observers in 2 (3) rounds, 10 option kinds x valid or refused description, 10 builders x model or default, 10 option kinds x 6 models, 3 schemes x 4 matrix solvers x 3 interpolations x 2 grids x solve/price, their construction, 8 numerical components, 6 models with 2 variance schemes, clones, parameter reads and writes, printing every option kind, payoff and stock to a device that refuses any character (41 of them evenly spread in the quick tier), all sequences of 8 (10) refused and accepted quasi-random draws; 600-700 first points and 6-60 later points per operation, more are spread evenly",
   assumptions=["only operator new fails: Eigen's own malloc'd storage is freed twice by Eigen when a resize fails", "an interrupted round of notifications may have reached only some observers", "a refused quasi-random draw may or may not use up its coordinate", "destructors do not fail"]),
})
