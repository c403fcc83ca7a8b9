PROPERTY = 'R01'
NEEDS = 'a scan without mesh of two ranges of which one has a multiple of the points of the other'
BREAKS = 'they are scanned together, the last points of the longer range are left out'
EDITS = [('src/mccode_antlr/run/range.py', "            if len(v) > 1 and len(v) != n_max:", "            if len(v) > 1 and n_max % len(v):")]
DEMO = r'''from mccode_antlr.run.range import MRange, parameters_to_scan
try:
    n, names, points = parameters_to_scan({'a': MRange(1, 4, 1), 'b': MRange(5, 6, 1)})
except ValueError as e:
    print(e)
else:
    points = list(points)
    print(n, points)
    assert False, 'ranges of 4 and 2 points are scanned together'
n, names, points = parameters_to_scan({'a': MRange(1, 4, 1), 'b': MRange(5, 8, 1)})
assert n == 4 and list(points) == [(1, 5), (2, 6), (3, 7), (4, 8)]
'''
