#!/usr/bin/env python3
"""Writes known_findings.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C02", "d8839e0", "CDistribution.prob/log_prob raised on a single point given as a 1-D vector"),
 ("C05", "ed0aa50", "the exponential density was not prod exp(-x/m)/m and not zero outside the positive orthant"),
 ("C08", "6b0df83", "exponential sampling did not return an n x d array"),
 ("C05", "53e7783", "Maxwell log-density was not -inf outside the support, prob failed on a single point"),
 ("C02", "a339fa1", "Laplace density returned a matrix instead of one value per point"),
 ("C05", "88eac27", "BenchDen uniform was not uniform on [0, 1]"),
 ("C04", "07fee9f", "uniform integral over a region disjoint from the support was not zero"),
 ("C04", "7dc5922", "delta integral did not use the distribution's own centre"),
 ("C06", "57bc679", "mixture weights became NaN when no weight was valid"),
 ("C06", "a47238d", "mixture set_weights modified the caller's array"),
 ("C07", "13eaef6", "mixture density failed on a single point given as a 1-D vector"),
 ("C07", "b4dcd65", "the Gaussian mixture passed its support method instead of the support values to the inner mixture"),
 ("C29", "32b1973", "kernel density estimate built its mixture with a wrong signature (TypeError)"),
 ("C29", "90b2146", "kernel components returned a matrix instead of one density value per point"),
 ("C12", "e359999", "resetting the memory metric did not reset its value"),
 ("C14", "07ba5c0", "DM-AIS and layered AIS failed on a batch of a single sample (N*K = 1)"),
 ("C15", "629b9b4", "rejection sampling counted the samples requested, not the proposals drawn and evaluated"),
 ("C15", "77e3421", "the tree pyramid did not count the evaluations of its first sample"),
 ("C14", "ecd4613", "the tree pyramid returned the samples of one leaf in place of another's (all but one per position overwritten)"),
 ("C14", "33b930e", "the tree pyramid failed without an effective sample size target (comparison with None)"),
 ("C14", "8a3a788", "tree pyramid mixture sampling used np.int, which numpy removed"),
 ("C21", "43710f6", "locating a point in the tree pyramid recursed forever"),
 ("C17", "0c2a213", "nested and multi-nested sampling accepted replacement points outside the space"),
 ("C24", "289c58d", "effective sample size of the nested samplers was NaN with zero weights"),
 ("C14", "cc796fe", "multi-nested sampling returned fewer samples than requested when the number does not divide by the clusters"),
 ("C16", "a745503", "multi-nested sampling kept its ellipsoids across a reset"),
 ("C22", "e1fea27", "HiDaisee split: a sample on the splitting plane went to a cell that does not contain it"),
 ("C18", "77c53d7", "Metropolis-Hastings moved to the rejected proposal when time ran out"),
 ("C14", "0fd4aa3", "Metropolis-Hastings sample(n) generated n*n samples"),
 ("C17", "eef4b6b", "Metropolis-Hastings started outside the space, again after a reset"),
 ("C23", "136fdd0", "mixture PMC covariance was not the weighted average of the outer products of deviations"),
 ("C23", "8dab705", "DM-AIS proposals became NaN when a whole batch had zero weight"),
 ("C23", "21eba7a", "mixture PMC proposals and weights became NaN when a whole batch had zero weight"),
 ("C18", "a2f5785", "Metropolis-Hastings failed when time ran out before the first step"),
 ("C13", "d6c25f9", "tree pyramid mixture weights were infinite: new leaves had weight zero in the tree's weights"),
 ("C21", "6665d33", "tree pyramid: a point of the space on a rounded cell limit was in no cell"),
 ("C15", "3df076e", "rejection sampling failed when time ran out before a sample was accepted"),
 ("C14", "56f1e4e", "mixture PMC: a component without posterior mass became NaN and spread to all components"),
 ("C20", "cd598b9", "nested sampling: the first sample was the point that replaced the one of lowest density"),
]
KNOWN = [
 ("C25", "k_ness", "", "CBenchmark.run with NESS among the configured metrics: the header has two NESS columns, the rows one"),
 ("C25", "k_wide", "", "CBenchmark.write_results with an effective sample size of more than eight characters: '%9.3f' runs into the field before it"),
 ("C26", "k_limit", "", "CBenchmark.evaluate_method never accumulates sampling_time: the time limit applies to each sampling call alone"),
 ("C27", "k_limits", "limits of the space", "CBenchmark.load_methods passes the limits through their printed form (eight decimals, at most 1000 entries)"),
 ("C27", "k_benchden", "the shipped BenchDen file can be loaded", "benchden/def_benchmark_benchden.yaml names types (distributions.benchden.X) load_benchmark cannot find"),
]
exec(open(os.path.join(V, "tools", "more_findings.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_findings.py")) else None
out = {"findings": [dict(property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED] +
       [dict(property=p, status="known", harness=h, label=l, what=w) for p, h, l, w in KNOWN]}
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(FIXED), "fixed", len(KNOWN), "known")
