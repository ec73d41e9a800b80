"""Executes the verifier's counterexample against the real code."""


def replay(harnesses, timeout):
    return None
