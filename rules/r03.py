from common import resource_rule


def run(P, rep, tier):
    rep.rule = ('Typestate over every path: each buffer from malloc/strdup/open_memstream/new[] and each curl handle is freed exactly once '
                'by its acquirer, its caller, its owner\'s destructor, or the library that took it over.')
    rep.assumptions = ['std::bad_alloc is not considered']
    resource_rule(P, rep, ['membuf', 'malloc', 'new[]', 'curl'], {'membuf': 1, 'malloc': 3, 'new[]': 1, 'curl': 1})
