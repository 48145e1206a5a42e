"""Shared description of the search-algorithm layer: which calls are kept as
opaque operations and what each of them may change."""
import re
from flow import *

MARKS = r'''
^ClosedList<.*>::(add|find|remove|clear|init|begin|end|resize|prstats|empty|getFill|~?ClosedList)\(
^ClosedList<.*>::iterator::
^OpenList<.*>::(push|pop|pre_update|post_update|empty|mem|clear|kind|~?OpenList)\(
^BinHeap<.*>::(push|pop|front|update|pushupdate|clear|append|size|empty|at|data|pullup|pushdown|reinit|~?BinHeap)\(
^Pool<.*>::(construct|destruct|~?Pool)
^SearchAlgorithm<.*>::(start|finish|limit|reset|output|~?SearchAlgorithm)\(
^Limit::
^SearchStats::(start|finish|output|SearchStats)
^Result<.*>::
^void solpath<
^(Htable|Kdtree|Intpq)<
^Rdb
'''


class AlgEff(Effects):
    PURE = re.compile(r'\) const$|::(h|d|isgoal|hash|eq)\(')
    LOCAL = re.compile(r'::Operators::(size|operator\[\])\(|^std::(min|max|fabs|abs|ceil|floor|sqrt)\b')
    FRESH = re.compile(r'^operator new|::construct\(')
    WORLD = re.compile(r'::Edge::~?Edge\(|::unpack\(')
    FIELDS = [
        (r'^(OpenList|BinHeap)<.*>::(push|pop|pre_update|post_update|update|pushupdate|clear|append|pullup|pushdown|reinit)\(', ['openind']),
        (r'^ClosedList<.*>::(add|remove|clear|resize)\(', ['nxt']),
    ]

    def havoc(self, name, ins):
        s = short(name)
        if s.startswith(('OpenList::', 'BinHeap::', 'ClosedList::', 'Pool::')):
            return []
        if s in ('SearchAlgorithm::limit', 'walltime', 'cputime'):
            return []
        if s in ('dfpair', 'dfrow', 'dfrowhdr', 'fatal', 'fatalx', 'fprintf', 'printf', 'puts', 'fputs'):
            return []
        if s == 'solpath':
            return [2]
        if s in ('std::vector::push_back', 'std::vector::emplace_back', 'std::vector::vector', 'std::vector::insert'):
            return [0]
        if name.startswith('VDomT'):
            if s.endswith('::pack'):
                return [1]
            if s.endswith('::unpack'):
                return [1]
            if s.endswith('::Edge'):
                return [0, 2]
            if s.endswith('::~Edge'):
                return []
            if s.endswith('::Operators'):
                return [0]
            if s.endswith('::dumpstate') or s.endswith('::pathcost'):
                return []
        return None

    def after(self, ex, st, ins, args, res):
        # a limit that has been reached stays reached
        if short(ins['callee']) == 'SearchAlgorithm::limit' and res is not None:
            seen = st.user.get('lim', ())
            if any(st.facts.b.get(x) is True for x in seen):
                st.facts.b[res] = True
            st.user['lim'] = seen + (res,)

    def publishes(self, name):
        # handing a node to a container makes it reachable from elsewhere
        return bool(re.search(r'^(OpenList|BinHeap|ClosedList)<.*>::(push|add|pushupdate|post_update|append)\(|push_back|emplace_back', name))
