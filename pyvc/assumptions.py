"""What the proofs assume without checking it. Reported with the evidence of every run."""

GENERAL = [
    "The abstract methods (storage, backends, sessions, XMPP and trust callbacks) satisfy the contracts in pyvc/env.py:"
    " each documented exception and a storage failure may happen at every call, and otherwise the documented effect",
    "one operation of the library runs at a time (no interleaving of calls at await points), except for C21, which is"
    " about overlapping storage accesses",
    "JIDs, namespaces and trust level names do not contain '/'; distinct integers have distinct decimal forms, base64 is"
    " injective",
    "lists in storage are abstracted to the set of their elements; insertion order of dictionaries and sets is not modelled",
    "integers are mathematical; termination is not proved; logging calls and docstrings are dropped by the extraction",
    "generator expressions are evaluated when they are created",
    "loaded backends have distinct namespaces (checked by create, C25)",
    "the custom evaluation of a trust level is a function of the trust level name, the device and its identity key",
    "the trust decision callback changes nothing but trust levels",
]

_PER = {
    "C01": ["Exceptions of one call that no try statement distinguishes are represented by one of them"],
    "C10": ["the refill threshold is within 25..99 (enforced by create, C25)"],
    "C06": ["builds_same_session is symmetric"],
    "C08": ["builds_same_session is symmetric", "a received message has at most one key pair per recipient device"],
    "C07": ["a received message has at most one key pair per recipient device"],
    "C09": ["a received message has at most one key pair per recipient device"],
    "C11": ["a received message has at most one key pair per recipient device"],
    "C25": ["the per-session limit is not negative"],
}


def of_property(p):
    return _PER.get(p, [])
