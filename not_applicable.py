PURE = "a pure function of its arguments: no schedule, clock, fault, randomness or interleaving reaches it, so there is nothing for a simulator to decide; "
NA = {
    "C47": PURE + "sequential numerical integration",
    "C48": PURE + "closed-form arithmetic",
    "C49": PURE + "linear solve",
    "C50": PURE + "linear solve",
    "C51": PURE + "sequence manipulation",
    "C53": PURE + "closed-form conversions",
    "C61": PURE + "sequential interpolation",
}
