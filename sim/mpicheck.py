"""Helpers of the checks which run simulated MPI jobs."""

from .core import Info, Violation, run_case


def world(case, ns, func, info=None, faults=None):
    """
    Run func(rank) on the case's simulated job. Jobs of a same case are numbered: each
    replays its own list of choices when the case is pinned.
    """
    i = len(ns.taken)
    choices = case.get('choices')
    w = ns.mpi.World(
        case['n'], f"{case['wseed']}:{i}",
        choices=None if choices is None else (choices[i] if i < len(choices) else []),
        isolate=ns.isolate, faults=faults,
    )
    ns.taken.append(w.taken)
    w.run(func)
    for e in w.exceptions:
        if isinstance(e, Violation):
            raise e
    if info is not None:
        info.stats['steps'] += w.steps
        info.stats['jobs'] += 1
        info.stats['ranks'] += case['n']
        info.faults['late_or_slow_rank'] += w.stats['slow_ranks'] + w.stats['late']
        info.faults['eager_completion'] += w.stats['eager']
        info.faults['rank_reordering'] += w.stats['reordered']
        for k, v in w.fault_log.items():
            info.faults[k] += v
        info.log(w.digest())
        info.key(tuple(w.taken), case.get('n'))
    return w


def finished(w):
    """The job came to its end: no deadlock, no mismatched collective calls."""
    if w.failure is not None:
        import traceback

        tb = ''.join(
            ''.join(traceback.format_tb(e.__traceback__)[-3:]) + f'{e!r}\n' for e in w.exceptions if e is not None
        )
        raise Violation(w.failure[0], w.failure[1] + '\n' + tb)


def succeeded(w):
    """... and no rank raised."""
    finished(w)
    for r, e in enumerate(w.exceptions):
        if e is not None:
            if isinstance(e, Violation):
                raise e
            import traceback

            tb = ''.join(traceback.format_tb(e.__traceback__)[-3:])
            raise Violation('exception', f'rank {r} raised {type(e).__name__}: {e}\n{tb}')
    return w.results


def agreed(w):
    """Every rank raised, or none did. Returns whether they raised."""
    finished(w)
    for e in w.exceptions:
        if isinstance(e, Violation):
            raise e
    raised = [e is not None for e in w.exceptions]
    if any(raised) and not all(raised):
        raise Violation(
            'ranks-disagree',
            'some ranks raised and others returned: '
            + '; '.join(f'{r}: {type(e).__name__ + ": " + str(e) if e else "returned"}'[:200]
                        for r, e in enumerate(w.exceptions)),
        )
    return raised[0]


def pin(mod):
    def f(case, ns):
        run_case(mod, case, ns)
        return dict(case, choices=[list(t) for t in ns.taken])

    return f


def shrink_choices(case):
    ch = case.get('choices')
    if not ch:
        return
    if any(any(c) for c in ch):
        yield dict(case, choices=[[] for _ in ch])
    for i, c in enumerate(ch):
        last = max((k for k, x in enumerate(c) if x), default=-1)
        if last < 0:
            if c:
                yield dict(case, choices=ch[:i] + [[]] + ch[i + 1:])
            continue
        if last + 1 < len(c):
            yield dict(case, choices=ch[:i] + [c[: last + 1]] + ch[i + 1:])
        size = (last + 1) // 2
        while size >= 1:
            for a in range(0, last + 1, size):
                if any(c[a:a + size]):
                    d = c[:a] + [0] * len(c[a:a + size]) + c[a + size:]
                    yield dict(case, choices=ch[:i] + [d] + ch[i + 1:])
            if size <= 4 and last > 60:
                break
            size //= 2
