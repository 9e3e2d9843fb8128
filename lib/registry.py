"""Which specification modules and driver decide each property."""
SCI = ("MC_Sciprint", {"quick": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}})
def sci(*a):
    return dict(mc=[SCI], driver="sciprint", trace="T_Sciprint", assumptions=list(a))

CHECKS = {
    "C01": sci("estimates need at most 28 digits in units of the error bar's last place (the decimal context's precision)"),
    "C02": sci("format_table is called with finite or clipped means (its documented domain)"),
    "C03": sci(),
    "C04": sci("a zero estimate may or may not count as one unit in its last place for the '>= 1' rule"),
    "C05": sci("jinja2 is not installed, so DataFrame.to_latex is replaced by a stand-in that honours escape and column_format; runs of blanks are collapsed"),
    "C06": sci(),
    "C30": sci("the shift of a column is taken from format_table on the same data and must be one the specification allows; DataFrame.to_latex is replaced by a stand-in (jinja2 is not installed)"),
}

STATS = ("MC_Stats", {"quick": {"MaxLen": "3"}, "thorough": {"MaxLen": "4", "Deep": "TRUE"}})
def stats(*a):
    return dict(mc=[STATS], driver="stats", trace="T_Stats", assumptions=list(a))

CHECKS.update({
    "C08": stats("float results are compared through the exact tail probability with relative tolerance 1e-6; samples are numerically well conditioned"),
    "C09": stats("relative tolerance 1e-9 on error bars, 1e-6 on p-values"),
    "C10": stats("draws are observed at np.random.multinomial; when the code draws differently, error bars and p-values are judged by 6-sigma bands of the exact distribution (N <= 5)"),
    "C11": stats(),
    "C12": stats("a tail position within 1e-9 of an integer may be rounded either way"),
})

CHECKS["C07"] = dict(mc=[("MC_Summary", {"quick": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}})], driver="summary", trace="T_Summary",
                     assumptions=["a column has infinite losses of at most one sign", "bootstrap cells are judged by 6-sigma bands of the exact resampling distribution (at most 4 points)"])

CURVES = ("MC_Curves", {"quick": {"MaxLen": "4"}, "thorough": {"MaxLen": "4", "Deep": "TRUE"}})
def curves(*a):
    return dict(mc=[CURVES], driver="curves", trace="T_Curves", assumptions=list(a))

CHECKS.update({
    "C13": curves("scores are finite and positive weights span at most 3 orders of magnitude within a row; relative tolerance 1e-9"),
    "C14": curves("limits are met to 1e-6"),
    "C15": curves("a linear curve has at least two distinct x values; an area never adds infinities of both signs"),
})

CB = ("MC_CurveBoot", {"quick": {"Draws": "2"}, "thorough": {"Draws": "3"}})
def cboot(*a):
    return dict(mc=[CB], driver="curveboot", trace="T_CurveBoot", assumptions=["curve functions passed to the library record their calls; resamples are the weights they received"] + list(a))

CHECKS.update({"C16": cboot(), "C17": cboot()})

LOSS = ("MC_Losses", {"quick": {"MaxLabels": "4", "Steps": "6"}, "thorough": {"MaxLabels": "4", "Steps": "10"}})
def loss(*a):
    return dict(mc=[LOSS], driver="losses", trace="T_Losses", assumptions=["relative tolerance 1e-9"] + list(a))

CHECKS.update({
    "C18": loss(), "C19": loss("an action within 1e-12 (relative to the largest loss) of the best expected loss counts as optimal"), "C20": loss(),
    "C21": loss("a table whose label columns are out of order within a method may be rejected"), "C29": loss(),
})

CKPT = ("MC_Checkpoint", {"quick": {"MaxRuns": "3"}, "thorough": {"MaxRuns": "4"}})
def pred(*a, mc=(LOSS,)):
    return dict(mc=list(mc), driver="predict", trace="T_Predict", assumptions=["estimators are deterministic and log their own calls"] + list(a))

CHECKS.update({
    "C22": pred(),
    "C23": pred("every run of a history uses freshly made estimator objects; a crash is an exception, a keyboard interrupt or the death of the process while a method is fitted or predicts; torn writes inside joblib's store are not modelled", mc=(CKPT,)),
    "C24": pred("losses and curve inputs of the parts are those of the library's own prediction and loss tables, which C21 and C22 decide", mc=(LOSS, ("MC_Summary", {"quick": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}}))),
})

SPLIT = ("MC_Split", {"quick": {"MaxLen": "3"}, "thorough": {"MaxLen": "4", "Deep": "TRUE"}})
def split(*a):
    return dict(mc=[SPLIT], driver="split", trace="T_Split", assumptions=list(a))

CHECKS.update({
    "C25": split("columns split at random alongside others have at most 5 distinct values, so that every choice is enumerated"),
    "C26": split("a share of the values within 1e-12 of the fraction meets it; a linear pivot that is not exact in floating point may move by 1e-9",
                 "equal likelihood is judged by 6-sigma bands"),
    "C27": split("the order of the columns is not checked"),
})

CHECKS["C28"] = dict(mc=[("MC_Session", {"quick": {"Calls": "3"}, "thorough": {"Calls": "4"}})], driver="session", trace="T_Session",
                     assumptions=["results equal up to relative 1e-11 count as equal", "estimator objects may change when they are fitted; cummax_strict(copy=False) is exempt",
                                  "private module attributes and parameters starting with an underscore may hold caches"])

CHECKS["C31"] = dict(mc=[("MC_Domain", {"quick": {"MaxFaults": "2"}, "thorough": {"MaxFaults": "9"}})], driver="domain", trace="T_Domain",
                     assumptions=["which exception is raised is not prescribed", "calls that Domain!Free lists are not judged (a condition on an argument that is not used)"])
