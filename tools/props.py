"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/direpack/"


def P(id, title, statement, over, qtext, why, files, mech, observe, level_note, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier={"over": [{"operation sequences": "histories", "injected faults": "fault_sequences"}.get(o, o) for o in over], "text": qtext}, why_tests_cant=why,
             anchors={"files": [S + f for f in files], "mechanism": [{"name": m, "where": S + files[0]} for m in mech], "observe_at": [observe]})
    if state:
        d["anchors"]["state"] = [{"name": state, "meaning": state, "where": S + files[0]}]
    d["_note"] = level_note
    return d


PROPS = [
P("C01", "Location estimators compute the statistic they are named after",
  "For every data matrix the location a scaler reports is, column by column, the mean (or symmetrically trimmed mean), the median, the spatial median minimising the summed Euclidean distances, or the k-step least trimmed squares mean, according to the name chosen. Missing cells are ignored by mean and median, and every estimator moves with shifts and rescalings of the data. A user-supplied location function is applied to the same data with the same trimming fraction.",
  ["inputs"], "all n x p matrices (ties, outliers, mixed magnitudes, missing cells), trimming fractions below 1/2, all named estimators",
  "The suite never calls a location estimator directly; one pinned number for one data set involves the k-step estimator.",
  ["preprocessing/_preproc_utilities.py", "preprocessing/robcent.py"],
  ["mean/median/trimmed mean helpers", "spatial median by numerical optimisation", "concentration steps from the spatial median"],
  "fitted location attribute of the scaler",
  "differential against plain definitions; the spatial median by objective value; k-step LTS exactly when half-subsets have margin"),
P("C02", "Scale estimators compute the statistic they are named after",
  "For every data matrix the scale a scaler reports is the (trimmed) standard deviation, the consistency-corrected median absolute deviation or, for a single variable, the tau scale of Maronna and Zamar, and 1 when no scaling is asked for. Missing cells are ignored by standard deviation and median absolute deviation. Every scale is unchanged by shifts, multiplies by the absolute factor under rescaling, and estimates sigma for Gaussian data.",
  ["inputs"], "all n x p matrices (single column for tau), trimming fractions below 1/2, missing cells",
  "No test looks at a scale estimate; constants such as the consistency factors are only visible through a formula-level oracle.",
  ["preprocessing/_preproc_utilities.py", "preprocessing/robcent.py"],
  ["std / trimmed std", "mad with consistency factor", "tau scale with rho truncation and consistency correction"],
  "fitted scale attribute of the scaler",
  "differential against plain definitions plus shift/scale metamorphic relations and Gaussian consistency"),
P("C03", "Scalers apply the training statistics affinely and invertibly",
  "After fitting, any data, training or new, one row or many, is mapped column-wise to (x - location)/scale with the location and scale estimated from the training data only, a zero scale being treated as one. The inverse transform undoes the transform for every input, including constant columns. Class, function, fit-transform and pipeline forms give the same numbers.",
  ["inputs", "operation sequences"], "all training/new data pairs, all estimator combinations, constant columns, single-row batches",
  "The suite has no scaler test; training/new-data leakage and single-row or constant-column behaviour need arbitrary batches.",
  ["preprocessing/robcent.py", "preprocessing/_preproc_utilities.py", "utils/utils.py"],
  ["fit stores location and scale", "transform/predict subtract and divide", "zero scale handling", "inverse transform"],
  "outputs of transform, predict, inverse_transform, fit_transform",
  "algebraic identities (affine map, round trip) and differential between API forms"),
P("C04", "Wrapping follows the published function about the fitted centre",
  "Every cell within 1.5 fitted scales of the fitted median is returned unchanged, every cell beyond 4 scales is moved to the median, and in between the value is the published tanh-shaped wrapping value. The same fitted median and median absolute deviation are used for training data, for new data and for a single new case. Wrapped values therefore stay bounded however extreme the input is.",
  ["inputs"], "all training/new data pairs, outliers up to 1e9 scales, zero-scale columns, single-row batches",
  "Wrapping is not tested at all in the suite.",
  ["preprocessing/_preproc_utilities.py", "preprocessing/robcent.py"],
  ["piecewise wrapping of standardised cells", "fitted median and mad reused for new data"],
  "outputs of transform, predict, fit_transform and the wrap function",
  "differential against the published function; bound and identity on the core region"),
P("C05", "Generalized spatial signs move rows along rays by the named radial function",
  "Each row of the centred data is multiplied by a single non-negative factor given by the chosen radial function (spatial sign, ball, shell, quadratic, winsor, linear redescending) of its norm and the norms' order statistics. The object form and the function form give the same data, and the spatial sign covariance is the cross-product matrix of that data divided by the number of rows, hence symmetric positive semidefinite. User-supplied radial functions are honoured in all forms.",
  ["inputs"], "all data with more rows than columns, all six radial functions, all centring options, outlier fractions below one half",
  "No test touches spatial sign preprocessing.",
  ["preprocessing/gsspp.py", "preprocessing/_gsspp_utils.py"],
  ["centring through the scaler", "radial cut-offs from order statistics", "covariance as cross product"],
  "preprocessed data, radial factors, covariance matrix",
  "differential against independently written radial functions; rotation metamorphic relation; PSD and trace invariants"),
P("C06", "Product-moment statistics equal their textbook definitions",
  "For every sample the moment object returns the requested central moment, variance, standard deviation, skewness, kurtosis, covariance, correlation, higher co-moment, co-skewness, co-kurtosis or continuum association, with the small-sample correction exactly when requested and trimming applied to the centre and to the products. With median centring the second order statistics are the consistency-corrected median absolute deviation and the comedian. With mean centring correlation is symmetric, bounded by one and invariant to positive rescaling; swapping the arguments of a co-moment swaps the orders.",
  ["inputs"], "all paired samples of length at least 5, orders 1 to 5, all option splits, trimming below 1/2, bias correction on/off, both centres",
  "Tests pin a dozen numbers on one data set with default options; order/option/trimming/bias combinations are untested.",
  ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"],
  ["trimmed co-moment kernel", "bias factors", "standardisation of co-moments", "continuum association"],
  "returned statistic and stored moment attributes",
  "differential against scipy/numpy definitions and metamorphic relations"),
P("C07", "Energy statistics equal their double-centred distance definitions",
  "For every pair of samples of any dimension and every distance metric, distance variance, standard deviation, covariance, correlation and continuum association, martingale difference divergence, their U-centred bias-corrected versions, and the martingale difference divergence matrix equal the values obtained directly from the (double- or U-) centred pairwise distance matrices, trimming and median centring applying to the centring and to the mean of products alike. The fast and the naive computation agree wherever both apply. The statistics are invariant to shifts and rotations, scale with the data, and distance correlation lies between zero and one.",
  ["inputs"], "all samples with 5 <= n <= 40, dimensions 1 to 4 per block, biased and bias-corrected, fast and naive algorithms",
  "Tests pin a few numbers on one data set; the naive algorithm, multivariate blocks and bias correction are not compared.",
  ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"],
  ["double and U centring", "distance moment", "martingale difference divergence", "fast path through the dcor library"],
  "returned statistic and stored moment attributes",
  "differential against O(n^2) definitions written independently, fast-vs-naive differential, invariances"),
P("C08", "Robust location, scale and preprocessing resist a minority of outliers",
  "Replacing fewer than half of the rows of a data set by arbitrarily remote values changes the median, spatial median, k-step LTS, median absolute deviation and single-variable tau scale only by an amount bounded by the clean data's spread, no matter how remote the values are. Wrapped values and generalized spatial signs of the clean rows stay within fixed multiples of the clean spread. The same holds wherever in the data the contaminated rows are.",
  ["inputs", "injected faults"], "all clean samples and all contamination patterns below one half, at distances 1e1 to 1e8 clean spreads",
  "No test contaminates data; a break appears only for a particular fraction, magnitude and placement of outliers.",
  ["preprocessing/_preproc_utilities.py", "preprocessing/robcent.py", "preprocessing/gsspp.py", "preprocessing/_gsspp_utils.py"],
  ["order-statistic based estimators", "spatial median objective", "half-subset selection"],
  "fitted locations and scales, preprocessed data",
  "fault injection (outliers) with bound oracle derived from clean data"),
P("C09", "Case weights follow the Hampel, Huber and Fair functions",
  "Every case weight of a robust fit lies in [0,1], combines the weight of the case's residual with that of its leverage, and is given by the chosen weight function at cut-offs set by the chosen probabilities: one up to the first cut-off, decreasing beyond it, and for Hampel zero beyond the last. A more remote case never gets a larger weight than a less remote one. This holds for cut-offs on either side of one, and weights of new cases follow the same function of their distances in the score space.",
  ["inputs"], "all three weight functions, all admissible probability triples, all data sets",
  "Tests use one weight function with default cut-offs on one data set.",
  ["sprm/_m_support_functions.py", "sprm/sprm.py", "sprm/rm.py", "cross_validation/_cv_support_functions.py"],
  ["weight functions", "cut-offs from normal and chi-square quantiles", "combination of x and y weights"],
  "case weight attributes, weight functions, robust loss",
  "differential against independent weight formulas; monotonicity invariant"),
P("C10", "Robust M regression is iteratively reweighted least squares",
  "The fitted coefficients are the least squares solution under case weights that combine a leverage weight with the weight function applied to the scaled residuals, iterated until the coefficient norm settles, and the intercept is the mean or median of what the slope leaves over. Fitted values, residuals and predictions on training data agree with coefficients and intercept in original units. When no case is remote the fit is ordinary least squares on the centred and scaled data.",
  ["inputs"], "all data with more rows than columns, three weight functions, centring and scaling options, cut-off probabilities",
  "One pinned prediction norm on one data set with one configuration.",
  ["sprm/rm.py", "sprm/_m_support_functions.py"],
  ["starting weights", "reweighting loop", "back-transformation to original units"],
  "coef_, intercept_, fitted_, residuals_, case weights, predict",
  "differential against an independent IRLS; identities"),
P("C11", "Sparse NIPALS without sparsity is PLS1 regression",
  "With sparsity parameter zero the sparse NIPALS estimator equals classical univariate partial least squares: coefficients and predictions coincide with those of a reference PLS for every number of components up to the rank, scores are orthogonal, and the full-rank model reproduces least squares. Scores equal centred and scaled data times rotations, fitted values equal predictions, residuals are response minus fit, and explained variances are the percentages the components remove. Centring and scaling options act only through the stated location and scale.",
  ["inputs"], "all full-rank data sets, all component numbers, centring and scaling options",
  "Tests pin one prediction norm with sparsity 0.5.",
  ["sprm/snipls.py"],
  ["weight vector, score, loading and deflation loop", "rotations and coefficient assembly", "rescaling and intercept"],
  "coef_, intercept_, x_scores_, x_loadings_, x_Rweights_, x_ev_, y_ev_, predict, transform",
  "differential against scikit-learn PLS and least squares; identities"),
P("C12", "Sparsity selects variables by soft-thresholding and reports them",
  "For every sparsity parameter in [0,1) a component's weights are the covariances reduced in size by that fraction of the largest one, on the union of the variables selected so far (a variable is selected when its reduced covariance is positive). Exactly the reported retained variables have non-zero coefficients and weights, reported names match the columns, and predictions ignore all other variables. Raising sparsity never adds a variable to a one-component model.",
  ["inputs"], "all data sets, sparsity in [0,1), component numbers, named and unnamed columns",
  "One sparsity value on one data set is tested, and never which variables are kept.",
  ["sprm/snipls.py", "sprm/sprm.py"],
  ["soft threshold of the covariance vector", "union of selected variables", "retained-variable reporting"],
  "coef_, x_weights_, colret_",
  "differential against an independent sparse NIPALS; invariants on supports"),
P("C13", "Missing cells in the predictors are skipped by sparse NIPALS",
  "With missing cells the sparse NIPALS fit equals the fit in which every inner product runs over the available cells only, and it is finite. Without missing cells the skipping computation and the ordinary one give the same model. Fitting a model to data with missing cells leaves no trace in a later fit.",
  ["inputs", "operation sequences"], "all missing-cell patterns that leave every row and column with data",
  "One data set with one missing cell is tested, in one configuration, and only by a rounded norm.",
  ["sprm/snipls.py", "utils/utils.py", "preprocessing/_preproc_utilities.py"],
  ["missing-aware inner products", "missing-aware location and scale"],
  "coef_, intercept_, x_scores_",
  "differential against an independent missing-aware NIPALS"),
P("C14", "Sparse partial robust M models predict with what they report",
  "For every configuration, predictions on any new data equal new data times the reported coefficients plus the intercept in original units, scores equal standardised data times rotations for training and new data alike, and fitted values and residuals agree with them. Zero-scale variables are removed, reported, and ignored in new data; scaled and unscaled coefficients describe the same model. Reported names of retained variables are the non-zero coefficients.",
  ["inputs"], "all data sets, weight functions, centring/scaling, component numbers, sparsity, zero-scale columns",
  "One pinned norm of case weights; prediction, transform and constant columns are untested.",
  ["sprm/sprm.py", "utils/utils.py"],
  ["rescaling of coefficients", "zero scale removal", "score projection of new data"],
  "predict, transform, fitted_, residuals_, coef_, coef_scaled_, x_scores_",
  "algebraic identities over generated models"),
P("C15", "Robust regressions are not driven by a minority of outliers",
  "When a minority of cases is replaced by gross outliers in the response or in the predictors, sparse partial robust M and robust M regression with redescending weights give the outlying cases zero or near-zero weight and coefficients close to those of the clean fit, whichever side they lie on and, for robust M regression and for all weights, however remote they are. The clean majority keeps weights well above zero. Least squares based fits do not define this behaviour, so the weights are what protects the fit.",
  ["inputs", "injected faults"], "clean linear data with up to 15% gross outliers at distances 1e2 to 1e6, on either side, any position, vertical or leverage",
  "No test contaminates data.",
  ["sprm/sprm.py", "sprm/rm.py", "sprm/_m_support_functions.py"],
  ["starting weights", "reweighting loop", "Hampel redescending weights"],
  "caseweights_, coef_, predict",
  "fault injection with bound oracle from the clean fit"),
P("C16", "Regression estimators respect permutations and changes of units",
  "Reordering the cases, reordering the predictors, or changing the units of the response or of a predictor (shift and rescaling, where the chosen centring and scaling make this meaningful) changes a fitted model only by the corresponding reordering or change of units of its coefficients, weights and predictions. This holds for sparse NIPALS, robust M and sparse partial robust M regression. In particular changing the sign of the response changes the sign of the coefficients.",
  ["inputs"], "all data sets, estimators and configurations in scope of the relation",
  "Metamorphic relation between two fits; no test fits the same data twice.",
  ["sprm/snipls.py", "sprm/sprm.py", "sprm/rm.py"],
  ["centring and scaling", "weighting", "deflation"],
  "coef_, predict, caseweights_",
  "metamorphic relations between pairs of fits"),
P("C17", "Projection pursuit returns a consistent latent variable decomposition",
  "For every projection index, optimiser and configuration (without compression) the weighting vectors have unit length, scores are mutually orthogonal, scores equal the centred and scaled data times rotations both for training and new data, loadings are the regressions of the data on the scores, and the explained variance is the share of the predictors' variance each score accounts for. With a response, predictions for any data equal the data times the coefficients plus intercept and agree with fitted values and residuals on training data, for least squares, robust and quantile regression alike, and with compression too. Asking for more components extends the decomposition without changing earlier components.",
  ["inputs"], "all full-rank data sets, moment-based projection indices, both optimisers, centring/scaling, regression options",
  "Two tests compare PCA/PLS weights on one data set.",
  ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py"],
  ["centring", "deflation", "rotations and coefficients", "regression of response on scores"],
  "x_weights_, x_scores_, x_loadings_, x_rotations_, coef_, intercept_, predict, transform",
  "algebraic identities over generated models"),
P("C18", "Projection pursuit directions maximise the projection index",
  "Each weighting vector attains, on the data left after removing earlier components, the global maximum over unit directions (up to sign and the optimiser's resolution) of a projection index that has a single maximum: variance gives principal components, covariance gives partial least squares, and continuum association moves between them. This holds for the gradient-based optimiser and for the grid search, in two, a few or many dimensions, and for squared and user-defined indices. For trimmed, median-based and other multimodal indices the grid search cannot be improved noticeably within any plane spanned by the direction found and a single variable; the index is evaluated with the trimming, continuum coefficient, bias correction, distance metric and co-moment option asked for, and further constraints given by the user hold for the direction found.",
  ["inputs"], "full-rank data, p from 2 to 20, several projection indices, both optimisers",
  "Two tests compare the first directions on one data set with five variables.",
  ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py", "ppdire/capi.py"],
  ["SLSQP with unit norm constraint", "grid plane search", "deflation"],
  "x_weights_, maxobj_",
  "optimality oracle: analytic optimum (eigenvectors / PLS) or best of many random directions"),
P("C19", "The co-moment analysis index is the stated weighted sum",
  "For every pair of samples the generic betting on co-moments index equals the weighted sum of covariance, the two co-skewness and the three co-kurtosis statistics up to the requested order, with the given weights, standardised or raw as requested. It is invariant to shifts and, when standardised co-moments are used, to rescaling of the higher-order terms. It uses the same moment definitions as the stand-alone moment statistics.",
  ["inputs"], "all paired samples, maximal orders 2 to 4, all weight vectors, scaling on/off",
  "The index is not tested.",
  ["ppdire/capi.py", "dicomo/dicomo.py"],
  ["assembly of co-moments and weights"],
  "returned index value",
  "differential against a direct weighted sum of definitions"),
P("C20", "Inverse regression estimators recover the defined central subspace",
  "Sliced inverse regression, sliced average variance estimation, directional regression, principal Hessian directions (ordered by signed eigenvalue) and the first iterative Hessian transformation direction return a basis of the span defined by the leading eigenvectors of their published kernel matrix on standardised predictors. The estimated subspace is unaffected by shifting, rescaling or invertibly mixing the predictors (after mapping back) and by reordering the cases. Slices of the response hold contiguous groups of equal size (the remainder in the last) or the classes of a discrete response, every one of them.",
  ["inputs"], "all full-rank data sets with continuous or discrete response, slice numbers, subspace dimensions",
  "One pinned correlation per method on a simulated model.",
  ["sudire/_sudire_utils.py", "sudire/sudire.py"],
  ["whitening", "slicing", "kernel matrices", "eigenvectors"],
  "estimated basis (column space)",
  "differential against independent kernels, subspace-angle oracle with eigengap guard, affine metamorphic relation"),
P("C21", "Sufficient dimension reduction objects report a consistent reduction",
  "For every method and configuration the reported basis, scores, projection matrix, regression on the scores, predictions and transforms describe one and the same reduction: scores and transforms are the predictors times the basis, the projection matrix projects on the basis, and predictions are the least squares fit on the scores applied to new data. The same holds for centred, scaled and raw predictors and for one or several directions; with mean-centred, scaled predictors the scores are uncorrelated with unit variance. The estimated structural dimension is a dimension between one and the number of predictors and reproduces for a fixed random seed.",
  ["inputs"], "all full-rank data sets, five inverse regression methods, centring and scaling options, 1 to p components",
  "Tests look at a single pinned correlation per method.",
  ["sudire/sudire.py", "sudire/_sudire_utils.py"],
  ["fit of the reduction", "projection matrix", "least squares on scores", "predict and transform"],
  "x_loadings_, x_scores_, proj_mat_, ols_obj_, predict, transform",
  "algebraic identities over generated models"),
P("C22", "Dependence-maximising reductions hand the optimiser the right problem",
  "When directions are found by maximising distance covariance, martingale difference divergence or a user-defined function, the objective handed to the optimiser is that dependence between response and projected predictors, the constraints require the basis to be orthonormal in the metric of the predictor covariance, and the default start is the best of the inverse regression solutions. The basis reported is the optimiser's solution, mapped back to the units of the predictors, and derivatives supplied to the optimiser agree with finite differences of objective and constraints. User-supplied starting values, constraints and options are used for that call.",
  ["inputs"], "all full-rank data sets, three objective kinds, 1 to 2 directions, generated points for derivative checks",
  "These methods are skipped in the suite because the interior point library is absent.",
  ["sudire/sudire.py", "sudire/_sudire_utils.py", "ipopt_temp/ipopt_wrapper.py", "ipopt_temp/jacobian.py", "utils/utils.py"],
  ["objective functions", "orthonormality constraints", "optimiser wrapper", "numerical derivatives"],
  "objective/constraint callbacks and the returned basis, through a recording stand-in for the solver library",
  "differential on recorded callbacks with a stand-in solver"),
P("C23", "A fit depends only on its parameters and its data",
  "Fitting any estimator, scaler or statistic leaves the caller's data and the object's parameters unchanged, and two fits with equal parameters and data give equal results whatever was fitted, predicted, cloned or reconfigured before with the same or another object. Cloning and getting and setting parameters round-trip. Objects never share state through default arguments.",
  ["operation sequences"], "all histories of create, configure, fit, predict, transform, clone over all public estimators",
  "Needs histories: tests create each object once and fit it once or twice.",
  ["sprm/snipls.py", "sprm/sprm.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "dicomo/dicomo.py", "preprocessing/robcent.py", "preprocessing/gsspp.py", "ppdire/capi.py"],
  ["constructor parameters", "attributes set during fit", "default arguments"],
  "results of fit/predict/transform, input arrays, get_params",
  "stateful model-based sequences; the model is a fresh object fitted once", state="estimator attributes"),
P("C24", "Results do not depend on the container the data arrive in",
  "Floating point and integer arrays of any memory layout, read-only arrays and views, pandas frames and series, and one- or two-dimensional responses holding the same numbers give the same fitted models, predictions and statistics. Frame column names and indices are used only as labels. A single new case is treated like the same row of a larger batch; the sparse, robust and sparse robust regressions also take it as a vector or series.",
  ["inputs"], "all public estimators x all admissible container combinations x generated data",
  "Tests pass float arrays only, or one frame.",
  ["utils/utils.py", "sprm/snipls.py", "sprm/sprm.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "preprocessing/robcent.py"],
  ["input conversion helpers"], "fit/predict/transform results across containers",
  "differential between containers"),
P("C25", "Unusable settings and mismatched data are refused",
  "Unknown moment names, estimation modes, centres, weight functions and methods, probabilities, sparsity or trimming outside their range, too many or non-positive components, responses of the wrong length, missing second samples, new data with the wrong number of columns, and plots of the wrong object or of absent new cases lead to an exception rather than to a result. Valid neighbouring settings are accepted. After a refusal the object can be used normally.",
  ["inputs", "operation sequences"], "all public estimators x generated invalid settings and the valid neighbours",
  "Tests never pass an invalid input.",
  ["sprm/snipls.py", "sprm/sprm.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "dicomo/dicomo.py", "preprocessing/_preproc_utilities.py"],
  ["constructor and fit validation", "predict column checks"], "raised exceptions",
  "generated invalid inputs with accept/reject oracle"),
P("C26", "Robust losses and cross-validation tables report what they say",
  "The robust loss is the chosen metric weighted by the chosen weight function of the absolute residuals, so it is symmetric in the sign of errors and equals the plain metric when no error exceeds the cut-off. Grid search over the robust sparse regression scores exactly the fitted models' predictions and the score table lists every setting once with its own score. Validation scores equal the coefficient of determination of the predictions, on training data weighted by the case weights when asked.",
  ["inputs"], "all predictions and responses, weight functions, metrics, parameter grids",
  "No test covers losses or tables.",
  ["cross_validation/_cv_support_functions.py", "sprm/sprm.py", "sprm/_m_support_functions.py"],
  ["weighted loss", "table assembly", "validation score"], "returned loss, table, score",
  "differential against direct computation"),
P("C27", "Plots show every case and coefficient once, at its value, with its label",
  "Score, prediction, coefficient and case weight plots of the fitted models draw each training case (and each new case) exactly once at the coordinates given by the model. Labels are attached to the points and bars they name, for all cases and variables including the last. In the robust regression plots, cases of weight zero are marked as harsh outliers, cases of weight strictly between zero and one as moderate ones, and all others as regular.",
  ["inputs"], "all fitted models, one or two data blocks, labelled and unlabelled",
  "Plotting is not tested.",
  ["plot/sprm_plot.py", "plot/ppdire_plot.py", "plot/sudire_plot.py"],
  ["scatter and annotate loops", "weight colouring"], "artists of the returned figure",
  "inspection of the drawn artists against the model"),
]

NOT_YET = {}


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(V, "pbt/checks", p["id"].lower() + ".py"))]
    miss = [p for p in PROPS if p not in have]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            f.write(json.dumps(q) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python pbt/setup_check.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python pbt/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python pbt/run.py %s --tier thorough" % p["id"],
            "technique": "property-based testing (hypothesis): " + p["_note"],
            "level": "exploration",
            "level_note": "Generated-input search, shrunk replays; not exhaustive. " + p["_note"],
        } for p in have],
        "not_applicable": [{"property": p["id"], "reason": NOT_YET.get(p["id"], "check still being built")} for p in miss],
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        import re
        n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)


if __name__ == "__main__":
    main()
