"""writes /verif/properties.jsonl (run by hand when a statement changes)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=["src/finoptions/" + f for f in files],
                               mechanism=[dict(name=n, where="src/finoptions/" + w) for n, w in mech],
                               observe_at=list(observe), state=[dict(name=a, meaning=b_, where=c) for a, b_, c in state], hook_needed=None)))


DOM = "strictly positive S, K, t, sigma and arbitrary real r, b"
VAN, BASE, TREE, AMER = "vanillaoptions.py", "base.py", "binomial_tree_options/__init__.py", "basic_american_options/__init__.py"
HN, GARCH = "heston_nandi_options/__init__.py", "heston_nandi_options/hnGARCH.py"
MC = "monte_carlo_options/"
SP, B3 = "spread_options/spreadapprox.py", "spread_options/bitree3d.py"

p("C01", "Cumulative normal is accurate, symmetric and bounded",
  "For every finite real x the library's standard normal cdf is within 7.5e-8 of the exact one (within 1e-9 of one half at 0), "
  "lies in [0, 1], and its values at x and -x add up to exactly one up to rounding; the normal density is the exact one.",
  ["inputs"], "every finite real x", "tests never call the cdf; they see it only through a handful of prices printed to 5-6 digits",
  [BASE], [("_Base._CND / _NDF", BASE)], ["price methods of every analytic option"])
p("C02", "Bivariate normal distribution function",
  "For all finite a, b and correlations in [-1, 1] the library's bivariate normal distribution function is finite and within 1e-6 of the exact one; "
  "it is assembled exactly as published from a five-point quadrature on the negative orthant and the reflection identities of the bivariate normal "
  "elsewhere, is symmetric in its two limits to the same accuracy, and always terminates.",
  ["inputs"], "every finite a, b and correlation rho in [-1, 1], on every sign pattern including zeros and rho = +-1",
  "it is only exercised indirectly by two American prices, which reach a few of the sign patterns", [BASE],
  [("_Base._CBND", BASE)], ["RollGeskeWhaley price"])
p("C03", "Closed-form Black-Scholes family prices",
  "The generalised Black-Scholes, Black-Scholes and Black-76 classes return for every input exactly the closed-form price of the documented model "
  "(discounted expectation of the payoff under lognormal dynamics with cost of carry b, b = 0 for the futures option), up to the accuracy of the normal cdf. "
  "Positional and keyword construction agree.",
  ["inputs"], DOM + ", calls and puts", "tests compare a single parameter point per class to 4-5 digits", [VAN],
  [("GBSOption.call/put", VAN), ("Black76Option.__init__", VAN)], ["call()", "put()"])
p("C04", "No-arbitrage relations of the closed-form models",
  "For Black-Scholes, Black-76, Miltersen-Schwartz and the Kirk spread approximation, call minus put equals the discounted forward minus strike exactly, "
  "and both prices lie between that parity bound (and zero) and the discounted forward (call) or discounted strike (put; for the spread, strike plus second leg). "
  "Calls rise and puts fall with the (first) underlying price, Black-Scholes, Black-76 and Miltersen-Schwartz prices move the opposite way with the strike, and Black-Scholes and Black-76 "
  "prices rise with volatility, up to the accuracy of the normal cdf.",
  ["inputs"], DOM + "; every pair of ordered inputs for the monotonicity part", "relations between prices at different inputs are not tested at all",
  [VAN, SP], [("GBSOption.call/put", VAN), ("MiltersenSchwartzOption.call/put", VAN), ("SpreadApproxOption.call/put", SP)], ["call()", "put()"])
p("C05", "Analytic greeks are the exact derivatives of the price",
  "Delta, gamma, vega, theta, rho and the cost-of-carry sensitivity reported by the analytic method of the Black-Scholes family are the partial derivatives of the same "
  "object's price (theta with a minus sign; rho moves b along with r when b is non-zero and holds it at zero otherwise), and lambda is delta times S over the price. "
  "The collected greeks contain exactly these seven values under their names, equal to the individual methods, for calls and puts.",
  ["inputs"], DOM + ", calls and puts", "tests check one point for a call and a put against printed values; no derivative relation is tested", [VAN],
  [("GBSOption.delta/theta/vega/rho/lamb/gamma/c_of_c/greeks", VAN)], ["greeks()", "delta()", "theta()", "vega()", "rho()", "lamb()", "gamma()", "c_of_c()"])
p("C06", "Miltersen-Schwartz commodity option price",
  "The Miltersen-Schwartz option returns, for all positive volatilities, mean reversions and maturities t <= T and all correlations, the published price: zero-bond price times "
  "(forward times exp(-covariance) times N(d1) minus strike times N(d2)), where the variance and covariance are the closed forms of the time integrals of the model's diffusion terms.",
  ["inputs"], "all positive prices, volatilities and mean reversions, 0 < t <= T, arbitrary correlations", "one parameter point is tested", [VAN],
  [("MiltersenSchwartzOption._vz/_vxz/call/put", VAN)], ["call()", "put()"])
p("C07", "Kirk spread approximation price",
  "The spread approximation returns for every input exactly the published Kirk price: the carried second leg plus discounted strike, times the lognormal exchange value of the "
  "ratio of the legs with the strike-adjusted volatility of the second leg and the given correlation.",
  ["inputs"], "all positive prices, quantities, strike, maturity and volatilities, arbitrary rates and correlation", "one parameter point is tested", [SP],
  [("SpreadApproxOption.call/put", SP)], ["call()", "put()"])
p("C08", "European lattice prices equal backward induction for every step count",
  "For every number of steps n >= 1 the Cox-Ross-Rubinstein, Jarrow-Rudd, Tian and trinomial European prices equal discounted backward induction of the payoff on the published "
  "lattice, with that model's up and down factors, probabilities and one-step discounting.",
  ["inputs"], DOM + ", every n >= 1, calls and puts", "tests use one n and one parameter point per lattice", [TREE],
  [("CRRBinomialTreeOption/JRBinomialTreeOption/TIANBinomialTreeOption/TrinomialTreeOption .call/put", TREE)], ["call()", "put()"])
p("C09", "American lattice prices are the optimal-stopping value for every step count",
  "For every number of steps n >= 1 the American lattice prices equal the backward induction that takes at every node the larger of immediate exercise and discounted continuation, "
  "so the American price is never below immediate exercise at the root.",
  ["inputs"], DOM + ", every n >= 1, calls and puts", "tests use one n and one parameter point per lattice", [TREE],
  [("CRRBinomialTreeOption/JRBinomialTreeOption/TIANBinomialTreeOption/TrinomialTreeOption .call/put", TREE)], ["call()", "put()"])
p("C10", "Lattice put-call parity and order of American and European prices",
  "For every number of steps, European lattice call minus put equals the discounted lattice forward minus discounted strike, where the lattice forward is S exp(bt) for Cox-Ross-Rubinstein, "
  "Tian and trinomial lattices and S((u+d)/2)^n for the equal-probability lattice. Where the one-step probabilities are genuine, European prices lie "
  "between zero and the American price and the American price is at most S for calls with b <= r and r >= 0 and at most K for puts with r >= 0.",
  ["inputs"], DOM + ", every n >= 1", "no relation between prices is tested", [TREE],
  [("CRRBinomialTreeOption/JRBinomialTreeOption/TIANBinomialTreeOption/TrinomialTreeOption .call/put", TREE)], ["call()", "put()"])
p("C11", "Returned option trees hold the backward-induction values and plot",
  "Asking a lattice for its tree returns an array whose entry for step j and node i is the option value of the backward induction at that node, with the price at the root, zeros outside the tree; "
  "drawing the tree succeeds, works on the same values, and leaves the option unchanged.",
  ["inputs"], DOM + ", European and American, calls and puts", "tests look at one tree of one model and never at the drawing", [TREE],
  [("*.call/put(tree=True), plot()", TREE)], ["call(tree=True)", "put(tree=True)", "plot()"])
p("C12", "Two-asset lattice equals the published backward induction",
  "For every number of steps the two-asset lattice price equals discounted backward induction with four equally likely moves: the first asset up or down by its own drift and volatility, and the second asset moved "
  "with the correlated part of the same shock, taking immediate exercise into account for American options only.",
  ["inputs"], "all positive prices, quantities, strikes, maturity and volatilities, arbitrary rates, correlation in [-1, 1], every n >= 1, each of the nine payoffs", "tests use one n, one parameter point per payoff", [B3],
  [("Bionomial three dimensional lattice price", B3)], ["call()", "put()"])
p("C13", "Two-asset payoffs and their wrapper classes",
  "Each of the nine two-asset option types pays exactly its documented payoff (spread, maximum, minimum, dual strike, reverse dual strike, portfolio, exchange, "
  "outperformance, product) for calls and puts, using the quantities and strikes given. The dedicated spread, maximum and minimum classes price exactly as the general class of the same type.",
  ["inputs"], "all positive prices, quantities and strikes; every option type, call and put", "the tests use one point and not every type/side pair with distinct strikes and quantities", [B3],
  [("payoff table", B3)], ["call()", "put()"])
p("C14", "Roll-Geske-Whaley American call",
  "The American call on a stock with one known dividend equals the Roll-Geske-Whaley formula in the escrowed price, where the critical ex-dividend price solves call value = price + dividend - strike; when the "
  "dividend is too small for early exercise to pay, it equals the European Black-Scholes call on the escrowed price.",
  ["inputs"], "all positive S, K, sigma, 0 < t1 < t, D >= 0, r", "one parameter point is tested and not the no-exercise branch", [AMER],
  [("RollGeskeWhaleyOption.call", AMER)], ["call()"])
p("C15", "Barone-Adesi-Whaley quadratic approximation",
  "The quadratic approximation returns the European price for calls that should never be exercised early (b >= r), immediate exercise at or beyond the critical price, and otherwise the European price plus A (S / S*)^q "
  "with the published exponent q and coefficient A, where the critical price S* satisfies the value-matching equation to the solver tolerance.",
  ["inputs"], DOM + " with r > 0; calls and puts", "two parameter points are tested; not the exercise region nor puts at the critical price", [AMER],
  [("BAWAmericanApproxOption.call/put", AMER)], ["call()", "put()"])
p("C16", "Bjerksund-Stensland approximation",
  "The Bjerksund-Stensland price is the published flat-boundary decomposition into six lognormal terms for a call with b < r, immediate exercise at or above the trigger price, the European price for b >= r, and the put "
  "is the call with spot and strike swapped and r - b, -b in place of r, b.",
  ["inputs"], DOM + "; calls and puts", "one parameter point for each side is tested", [AMER], [("BSAmericanApproxOption.call/put", AMER)], ["call()", "put()"])
p("C17", "Numerical greeks differentiate the object's own price",
  "The numerical greeks of every option class differentiate that same class's price of the same type (call or put) at the object's own parameters with respect to the named parameter alone: first derivative for delta, vega and rho, "
  "second for gamma, minus the first for theta, and lambda is delta times S over the price. They never change the object.",
  ["inputs", "configurations"], "every option class offering numerical greeks, all valid parameters, calls and puts", "tests compare a few greeks of a few classes at one point",
  [BASE, VAN, AMER, TREE, SP, B3], [("GreeksFDM", BASE), ("delta/theta/... delegations", VAN)], ["greeks()", "delta() ..."])
p("C18", "Parameters round-trip and copies are independent",
  "For every option class the parameters read back are the ones given, changing one parameter leaves an object that prices exactly as one freshly built with that parameter changed and all others unchanged, and "
  "a copy prices the same and is not affected by later changes to the original, nor the reverse.",
  ["inputs", "histories", "configurations"], "every option class, every parameter, every sequence of changes", "tests change one parameter on one class",
  [BASE, VAN, AMER, TREE, SP, B3, HN, MC + "__init__.py"], [("get_params/set_param/copy", BASE)], ["get_params()", "set_param()", "copy()"])
p("C19", "Pricing is pure",
  "Asking an option for prices, greeks, trees, implied volatility, summaries or parameters never changes the option or the arrays it was built from, so any order and number of such calls gives the same results as asking once.",
  ["histories", "inputs"], "every option class, every sequence of read-only calls", "tests call each method once", [BASE, VAN, AMER, TREE, SP, B3, HN],
  [("call/put/greeks/volatility/summary", BASE)], ["all public methods"])
p("C20", "Vectorised inputs price element by element",
  "Where a class accepts arrays, pricing or differentiating an array of inputs gives the array, in order, of the scalar results for the corresponding elements, with scalars broadcast, for any mix of array and scalar parameters.",
  ["inputs"], "every class documented to take arrays, arrays of any length, any mix of array and scalar parameters", "tests use one array per class on one parameter",
  [VAN, AMER, TREE, SP], [("call/put/greeks on ndarray", VAN)], ["call()", "put()", "greeks()"])
p("C21", "Implied volatility inverts the price",
  "Solving for the implied volatility of a price produced by the option itself returns a volatility that reproduces that price, for calls and puts, for scalars and arrays, and leaves the option's own volatility untouched.",
  ["inputs"], DOM + ", prices produced by the model with volatility in a range where the price responds to it", "a single round trip is tested per class",
  [BASE, VAN, AMER, SP], [("Option._volatility, *.volatility", BASE)], ["volatility()"])
p("C22", "Heston-Nandi price and greeks",
  "The Heston-Nandi call equals the characteristic-function price built from the published coefficient recursions over the remaining days with the risk-neutral parameters, the put follows by parity, "
  "and the reported delta and gamma are the derivatives of that price in the underlying.",
  ["inputs"], "positive S, K, whole days to maturity n >= 1, GARCH parameters in the stationary range, calls and puts", "one parameter point is tested", [HN],
  [("HestonNandiOption.call/put/delta/gamma", HN)], ["call()", "put()", "delta()", "gamma()"])
p("C23", "Heston-Nandi GARCH simulation, filtering and fitting",
  "The simulated returns and the filtered variances follow the model's variance recursion from the stationary start for every length, the reported likelihood is the Gaussian likelihood of the filtered returns (with the asymmetry fixed at zero in the symmetric model), "
  "and fitting reports the parameters at which the optimiser stopped together with that likelihood and the implied stationary statistics.",
  ["inputs", "histories"], "all stationary parameter sets, all lengths and seeds, symmetric or not", "one simulated path and one fit on a stored series are tested", [HN],
  [("hngarch_sim, hngarch_fit, _llhHNGarch", HN)], ["hngarch_sim()", "hngarch_fit()"])
p("C24", "Monte Carlo driver averages the discounted payoffs of its own draws",
  "For every innovation, path and payoff model, call() and put() of the Monte Carlo option draw one array of innovations from the generator per loop (mirrored when antithetic, then brought to mean zero and unit standard deviation over all entries when standardised), "
  "build the path from it with the volatility, the step t/path_length and the carry, and return per loop the mean of the payoffs of all its paths under the option's parameters; the trace reports each loop's number, mean and the mean of all loops so far without changing the values, "
  "the generator is built once with the numbers of paths and steps and the passed innovations, later valuations draw on without changing earlier results, and a loop whose mean is infinite is announced by a warning and returned as (innovations, path, payoffs).",
  ["inputs", "histories"], "every number of loops, paths and steps, every payoff, path and innovation model, antithetic or not, standardised or not, traced or not, repeated valuations", "one configuration with stored innovations is tested", [MC + "__init__.py"],
  [("MonteCarloOption._sim_mc, call, put, _print_trace", MC + "__init__.py")], ["MonteCarloOption.call()", "MonteCarloOption.put()"])
p("C25", "Monte Carlo innovations, paths and payoffs follow the model",
  "The Wiener path increments are (b - sigma^2/2) step + sigma sqrt(step) times innovation entry by entry, the plain payoff is the discounted exercise value of S exp(sum of the path's increments) and the Asian payoff that of the mean of S exp(running sums), one per path, neither changing the path; "
  "the Sobol innovations have one row per path and one column per step, are finite, are the standard normal quantiles of the Sobol points drawn (unscrambled: points 1, 2, ... of the sequence, never the origin), and innovations passed by the caller are returned as they are.",
  ["inputs"], "every number of paths and steps, every market parameter, every innovation array", "one configuration per model is tested", [MC + "mc_paths.py", MC + "mc_payoffs.py", MC + "mc_innovations.py"],
  [("WienerPath.generate_path", MC + "mc_paths.py"), ("PlainVanillaPayoff, ArithmeticAsianPayoff", MC + "mc_payoffs.py"), ("NormalSobolInnovations.sample_innovation", MC + "mc_innovations.py")],
  ["generate_path()", "call()", "put()", "sample_innovation()"])
p("C26", "Missing volatility and unsupported arrays are rejected",
  "Constructing an option without volatility is allowed, yet asking a price or greek that needs it raises an error rather than returning a number, an unknown exercise type is rejected, "
  "and classes that cannot price arrays raise an error when given one: the American approximations and the one-asset lattices on construction, the two-asset lattices at the latest when a price is asked.",
  ["inputs", "configurations"], "every option class with an optional volatility, every price and greek method; every class without array support", "a few classes are tested for one missing argument",
  [BASE, VAN, AMER, TREE, SP, B3], [("argument checks", VAN)], ["constructors", "call()", "put()", "greeks()"])
p("C27", "Summaries describe the object truthfully",
  "For every option class the text summary names the class's own model, lists every parameter with its value and, when they can be computed, the call and put prices rounded as shown; str() equals the summary, and repr() "
  "is the class's own name applied to the values of all parameters in the order in which get_params() reports them.",
  ["inputs", "configurations"], "every option class and parameter value", "summaries are compared for a few classes at one point", [BASE, VAN, AMER, TREE, SP, B3, HN],
  [("Option.summary/__str__/__repr__", BASE)], ["summary()", "str()", "repr()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
