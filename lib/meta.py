"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PF = 'path-sensitive value-flow dataflow over inlined LLVM IR'
S = 'search/'
ALGS = [S + x for x in ('idastar.hpp', 'astar.hpp', 'astar-dump.hpp', 'wastar.hpp', 'greedy.hpp', 'bugsy.hpp', 'bugsy-slim.hpp', 'arastar.hpp', 'lsslrtastar.hpp', 'fhatlrtastar.hpp', 'dtastar.hpp', 'dtastar-dump.hpp', 'beam.hpp')]
PROPS = []
NA = []
LN = ('Static: every control-flow path (loops cut at their headers, callees inlined) of the current source is walked once by a value-flow analysis; '
      'no code is executed and no solver is used. ')


def P(id, title, st, over, text, why, files, mech, observe, technique, note, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe] if isinstance(observe, str) else observe)
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    PROPS.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a,
                      _t=technique, _n=note))


def N(id, title, st, over, text, why, files, mech, observe, reason):
    P(id, title, st, over, text, why, files, mech, observe, None, None)
    NA.append(dict(property=id, reason=reason))


P('P01', 'Every solution a search returns passed the goal test',
  'Whenever a search algorithm hands back a solution, the final state of that solution passed the domain\'s goal test on the very execution path that extracted it. '
  'When no goal was reached the result holds no leftover moves or states. '
  'The driver that runs a search reports a final cost that is the domain\'s cost of exactly the returned states and moves, and the no-solution value when there are none.',
  ['inputs', 'programs'], 'every domain, start state and command line, for all search algorithms of the tree',
  'The unit tests do not run any search algorithm at all; a finite set of instances could not show that no execution path returns an untested node.',
  ALGS + [S + 'search.hpp', S + 'main.hpp'],
  [('goal tests before path extraction', 'search() of each algorithm'), ('goal marks of the local searches', 'goal fields of nodes'), ('driver', 'searchGet in search/main.hpp')],
  'the path and operator sequence of a result; "final sol cost" lines',
  PF, LN + 'Covers the 16 algorithm classes compiled over an opaque domain with int and double costs. Assumes the domain\'s goal test is a function of the state.')

P('P02', 'Returned solutions are real operator sequences from the start state',
  'For every solution a search returns, consecutive states are linked by the recorded operator: each search node records the parent, operator, inverse operator and path cost of exactly one transition actually generated from that parent. '
  'The root of every search stands for the given start state. '
  'Reconstruction follows the parent links from the goal and emits each node\'s own state and operator, so the sequence replays from the start state to the goal.',
  ['inputs', 'histories'], 'every domain, start state and command line, including every re-opening and re-parenting history',
  'No search algorithm is run by the unit tests, and mixing the parts of two transitions shows only on particular duplicate histories.',
  ALGS + [S + 'search.hpp'],
  [('transition objects', 'Edge construction in expansion loops'), ('path reconstruction', 'solpath and the extraction loops'), ('records of transitions', 'in/out edge lists of the real-time searches')],
  'path and ops of a result', PF,
  LN + 'The state of a child is whatever the transition object refers to; the transition objects themselves are checked by P10. Domain operations are opaque.')

P('P03', 'Known states: cheaper paths always win, and redirects are consistent',
  'When a search generates a state it already knows, it looks it up under that state\'s own hash, redirects the known node only if the new path is strictly cheaper, and never discards a strictly cheaper path unless dropping duplicates was requested. '
  'A redirect replaces parent, operators, path cost and all ordering values together, and the node afterwards sits in the open list in its new position (re-opened if it had been closed). '
  'A state not known before is stored and opened exactly once.',
  ['inputs', 'histories'], 'every domain and every order in which states are generated and re-generated',
  'Duplicate handling depends on the order of generation of paths to the same state; no test runs a search.',
  [f for f in ALGS if 'idastar' not in f] + [S + 'search.hpp', S + 'closedlist.hpp'],
  [('duplicate branch of expansion loops', 'considerkid and the kid loops'), ('open list updates', 'pre_update/post_update/push')],
  'cost of returned solutions; the statistics of a run', PF,
  LN + 'State equality and hash are those of the domain (P11).')

P('P06', 'Reported search statistics count what the search did',
  'The printed numbers of expanded, generated, duplicate and re-opened nodes equal the numbers of expansions, generated transitions, meetings with known states, and closed nodes put back. '
  'Every counter and every elapsed time appears under its own label, the solution length printed is that of the returned path, and accumulating results adds every quantity. '
  'Counters start at zero.',
  ['inputs', 'histories'], 'every run of every search algorithm',
  'No test looks at the statistics of a search; a miscounted branch is invisible without counting independently on every path.',
  ALGS + [S + 'search.hpp', S + 'search.cc'],
  [('counter updates', 'expansion loops'), ('report', 'SearchStats::output, Limit::output, Result::output'), ('accumulation', 'SearchStats::add, Result::add')],
  'datafile lines "total nodes expanded", "... generated", "... duplicated", "... reopened"', PF,
  LN + 'The duplicate counter of the real-time searches is required only where the algorithm keeps one.')

exec(open(os.path.join(HERE, 'lib', 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'lib', 'meta_more.py')) else None


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    import registry
    PROPS.sort(key=lambda p: p['id'])
    na = {n['property'] for n in NA}
    have = [p for p in PROPS if p['id'] in registry.CHECKS or p['id'] in na]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    m = dict(version=1, setup_cmd='bash tool/build.sh', checks=[], not_applicable=sorted(NA, key=lambda n: n['property']))
    for p in have:
        if p['id'] in na:
            continue
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                                technique=p['_t'], level='other', level_note=p['_n']))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(have), 'properties,', len(m['checks']), 'checks')


if __name__ == '__main__':
    main()
