"""Shared body of the write-then-read properties."""


def make(profiles):
    table = {p.name: p for p in profiles}

    def cases(tier):
        import os
        only = os.environ.get("MC_ONLY")
        its = [p.cases(tier) for p in profiles if not only or p.name in only.split(",")]
        # interleave so that every worker sees every format
        for it in its:
            yield from it

    def run(case, ctx):
        import meshio

        table[case["f"]].roundtrip(meshio, case, ctx)

    return cases, run
