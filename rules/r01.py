from common import resource_rule


def run(P, rep, tier):
    rep.rule = ('Typestate over every path (normal, error and exception exits; branch-correlated, interprocedural): each descriptor, '
                'stdio stream, directory and mapping acquired in the program is released exactly once by its acquirer, its caller, or '
                'the destructor of the object it is stored in (chained lifecycles); no use or second release afterwards.')
    rep.assumptions = ['descriptors 0-2 stay open', 'std::bad_alloc is not considered', 'resources a command line program holds when main returns are released by the system']
    resource_rule(P, rep, ['fd', 'stream', 'dir', 'mapping'], dict(fd=3, stream=6, dir=1, mapping=1))
