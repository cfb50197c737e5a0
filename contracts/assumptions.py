"""
What is assumed and not checked, by property; goes into the evidence.  The
first part of each entry names the property whose contracts justify it, if
any.
"""
CHALLENGE = [
    "single challenge: drawing of indices behaves as C04 says (distinct, "
    "valid, none of the excluded)",
    "single challenge: weights are arbitrary reals (C08 restricts them)",
    "single challenge: history and reporter are stand-ins that record calls "
    "(C10, C11, C13 are about them)",
    "single challenge: while it waits, others replace any members but the "
    "target's, whose slot it has reserved (C06), and the run may be shut "
    "down or aborted; several challenges at once follow from this by every "
    "challenge keeping to the same rules",
]
RUN = [
    "run loop: the population is a stand-in that answers as C03, C07, C13 "
    "and C15 say and gives up on anything else",
]
SETUP = [
    "setup: initial values come from a table of arbitrary numbers (Latin "
    "hypercube and uniform sampling are not modelled)",
    "setup: evaluations in flight are up to two at a time; the number done, "
    "of members so far and the configured size are arbitrary",
]
REPORTS = [
    "deliveries: the population's part in blacklisting and aborting is a "
    "stand-in (C07, C16)",
    "deliveries: reports and answers come one at a time in any order; one "
    "arbitrary step from an arbitrary state stands for any number",
]
ROSTER = [
    "history: which of the candidates is examined is up to chance, and the "
    "sampling of pairs may be any",
    "history: stored numbers are rounded to single precision by some "
    "monotone function that leaves stored numbers alone; apart from that "
    "floating-point numbers are reals",
    "history: np.searchsorted, np.flatnonzero, np.var, np.sum and the sort "
    "of an array do as documented; np.exp does not overflow",
    "history: np.random.choice gives distinct positions within range",
    "history: that the pair chosen has the least measure is shown for "
    "positive errors only",
    "history: numbers already stored are finite",
    "history: sampling asks for more pairs of itself until it has enough; "
    "each call is taken to do as this one does (partial correctness)",
    "history: hashes of different individuals differ",
]
BY = {
    'C01': CHALLENGE + RUN + SETUP,
    'C02': CHALLENGE + RUN + SETUP + [
        "constraints: arbitrary functions that answer the same way when "
        "asked the same thing and do not change the parameters"],
    'C03': CHALLENGE + RUN,
    'C04': CHALLENGE + RUN + [
        "draws: random.random, uniform, sample and triangular return anything "
        "in their documented range, with the documented likelihood",
        "draws: obligations show that a draw with a setting in between falls "
        "along the ranking with a density that never rises, and that "
        "everybody has an equal share of the way; that nobody is then less "
        "likely than anybody ranked worse is the reader's conclusion.  "
        "Likelihoods are sampled as well"],
    'C05': CHALLENGE + RUN,
    'C06': CHALLENGE + RUN + [
        "DeferredLock and DeferredList of Twisted are executed, not proved"],
    'C07': ["ranking: np.argsort returns some permutation in ascending "
            "order", "ranking: listing cached before a change is arbitrary"],
    'C08': ["np.sqrt of a positive number is the positive root"],
    'C09': SETUP,
    'C10': ROSTER,
    'C11': ROSTER + [
        "members with exactly the same values and error are excluded"],
    'C12': ["pickle and bz2 reproduce what the state methods hand them",
            "np.save and np.load reproduce the array",
            "N_max is less than 65536: row numbers are saved with 16 bits"],
    'C13': REPORTS,
    'C14': REPORTS,
    'C15': ["chance: np.random.random_sample returns anything in [0, 1)",
            "a challenger without a finite error against a member that has "
            "one is left out: msgRatio's documentation contradicts itself "
            "there"],
    'C16': CHALLENGE + RUN + SETUP + [
        "abort handlers do not raise exceptions"],
    'C17': RUN,
    'C18': [
        "values: words have no ASCII white space and no characters beyond "
        "U+2FFFF; str.lower is some function of the word",
        "values: float() takes decimal literals and gives the same for upper "
        "and lower case",
        "names: replace, strip, isdigit and int() are some functions of the "
        "word; words of ASCII digits are digits and make an integer",
        "lines: what comes before '#' is blank, begins with '--' or has "
        "words; exactly the blank ones have none; which is which and the "
        "words are arbitrary, not computed from the characters",
        "lines: names are taken or refused as any_name shows, with arbitrary "
        "parts; the meaning of a value is some function of "
        "its word with trailing commas stripped",
        "dicts: one arbitrary step down from a dict of arbitrary contents "
        "stands for any number; only the key asked for is looked at",
        "queries: each level further down is taken to answer as this one "
        "does (partial correctness)", "files: opening is a stand-in"],
    'C19': ["registry entries are sets or None, as documented"],
    'C20': ROSTER + [
        "plots are not looked at, their data and file names are",
        "selections: slices have no step; fractions and portions are "
        "computed in reals",
        "file names: directory, base name and extension are single "
        "characters that stand for any text without '/' and '.'; os.path is "
        "taken to treat all of these alike, and different numbers have "
        "different digits"],
    'C21': ["time.time() never decreases"],
    'C22': [],
}
