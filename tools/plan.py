"""Which engines decide which property."""
PLAN = {
    "C01": ["coremc", "fam"],
    "C02": ["coremc", "fam"],
    "C03": ["coremc", "fam"],
    "C04": ["coremc", "fam"],
    "C05": ["coremc", "fam"],
    "C06": ["coremc", "fam"],
    "C07": ["fam"],
    "C08": ["coremc", "fam"],
    "C09": ["posmc", "coremc"],
    "C10": ["posmc"],
    "C11": ["textmc"],
    "C12": ["textmc", "fam"],
    "C13": ["fam", "genmc"],
    "C14": ["coremc", "fam"],
    "C15": ["fam"],
    "C16": ["fam", "genmc"],
    "C17": ["fam", "coremc"],
    "C18": ["coremc", "fam"],
    "C19": ["coremc", "fam"],
    "C20": ["coremc"],
    "C21": ["fam", "genmc"],
    "C22": ["posmc"],
    "C23": ["genmc"],
    "C24": ["coremc", "fam"],
    "C25": ["textmc", "genmc"],
}
ASSUME = [
    "The reference semantics in mc/vref/src/interp.rs is right; it is kept independent of the code.",
    "rustc, cargo and the third-party crates in the lock file are trusted.",
    "Behaviour beyond the stated bounds (expression size, input length, alphabet) is not explored.",
]
TECH = {
    "*": "explicit-state model checking of a reference PEG machine, every trace replayed on the real code",
}
LEVELN = {
    "*": "Exhaustive within the stated bounds: every expression/grammar, input, start and stack history of each space "
         "is run through the reference machine and the real code, and all observables are compared. "
         "Trusts the reference semantics and rustc; nothing beyond the bounds is explored.",
}
NA = {}
