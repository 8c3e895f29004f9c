from common import resource_rule


def run(P, rep, tier):
    rep.rule = ('Typestate over every path: each XML document, parser, XPath context and result, XML string, text writer, output buffer '
                'and JSON value obtained from libxml2/json-c is freed, or handed to its new owner, exactly once.')
    rep.assumptions = ['std::bad_alloc is not considered', 'a writer left in the harvest parser state when parsing stops inside a data element is outside the per-callback scope']
    resource_rule(P, rep, ['xmldoc', 'xpathctx', 'xpathobj', 'xmlstr', 'parserctxt', 'writer', 'outbuf', 'json'],
                  dict(xmldoc=1, xpathctx=1, xpathobj=1, xmlstr=3, parserctxt=1, writer=1, outbuf=1, json=10))
