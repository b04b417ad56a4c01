"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL, OP, FN, PR, CO, OU, UN, LO, OR, TA, RE = ("clustertools/cluster/cluster.py", "clustertools/cluster/operations.py", "clustertools/analysis/functions.py",
    "clustertools/analysis/profiles.py", "clustertools/util/coordinates.py", "clustertools/util/output.py", "clustertools/util/units.py",
    "clustertools/io/load.py", "clustertools/analysis/orbits.py", "clustertools/tidaltail/tails.py", "clustertools/util/recipes.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, level=level))


prop("C01", "Unit conversions are path independent and reversible",
     "Converting a cluster through any sequence of its unit systems (nbody, pckms, pcmyr, kpckms, kpcgyr, galpy, WDunits, AMUSE), from any coordinate origin, leaves the same "
     "physical positions, velocities, masses, times, centre, orbit and binary/stellar-evolution data as converting directly, and converting back reproduces the original numbers. "
     "Every dimensional quantity the cluster carries always reads in the unit system its units label names.",
     ["histories", "configurations"], "all sequences of unit conversions of any length x all unit systems x all origins x with/without N-body scaling, binaries and stellar evolution data",
     "Tests convert along a handful of fixed pairs and compare some attributes; they never walk arbitrary paths nor look at every attribute after each step.",
     [OP, CL], ["to_nbody/to_pckms/to_pcmyr/to_kpckms/to_kpcgyr/to_galpy/to_WDunits/to_amuse/to_units"], "attributes of StarCluster after each conversion",
     "explicit-state model checking of the real object (BFS over conversion sequences to a fixpoint of canonical states), reference model of physical units",
     "fixpoint reached, so sequences of any length over the stated alphabet are covered")
prop("C02", "Origin changes keep the physical positions and are reversible",
     "Moving a cluster between the cluster-centre, cluster and galactocentric origins, in any order and interleaved with unit conversions and save/restore, always shows the same physical "
     "positions and velocities relative to the origin the cluster names. Each such move is exactly undone by moving back, and never changes the stored centre and orbit.",
     ["histories", "configurations"], "all sequences of origin changes, unit conversions and save/restore of any length x worlds with/without centre offset, orbit, custom solar parameters",
     "Tests move between origins once or twice from fresh clusters in one unit system.",
     [OP, CL], ["to_centre/to_cluster/to_galaxy/to_origin/save_cluster/return_cluster"], "attributes of StarCluster after each move",
     "explicit-state model checking of the real object (BFS over operation sequences to a fixpoint), reference model of frames", "fixpoint reached for every start")
prop("C03", "Sky coordinates always describe the current stars and round-trip",
     "Whenever a cluster is expressed on the sky, its right ascensions, declinations, distances, proper motions and line-of-sight velocities (for stars, orbit and centre) are those of its current "
     "phase-space contents, whatever stars, orbit or orbit objects were added or computed before. Clustercentric sky offsets are taken about the stated centre in the requested convention, and "
     "leaving the sky restores the Cartesian positions, velocities, centre and orbit.",
     ["histories", "configurations"], "all histories up to a depth of sky transforms, tangent-plane conventions, origin/unit changes, star additions and orbit replacements",
     "Tests convert a freshly built cluster once; stale caches after data changes and repeated conversions are never exercised.",
     [OP, CL, OR, CO], ["to_radec/to_sky/to_galaxy/to_cluster/to_centre in radec, initialize_orbit(s)"], "sky attributes of StarCluster",
     "bounded explicit-state model checking of the real object over operation histories, sky positions recomputed independently from the reference contents",
     "depth-bounded (3-4 quick, 5-6 thorough)")
prop("C04", "Radii, speeds, totals and orderings always describe the current contents",
     "After any history of conversions, origin changes, star edits, additions, recentring, stellar-evolution data and analysis, the derived quantities a cluster reports (3D and projected radii and speeds, "
     "mass totals and means, counts, extents, half-mass, 10% and half-light radii, radial orderings) equal their definitions evaluated on the current star arrays.",
     ["histories"], "all histories up to a depth over conversions, origin moves, star edits/additions, recentring, stellar evolution data, save/restore, analysis",
     "Tests check the derived quantities right after construction or one conversion, not after histories which leave stale caches.",
     [CL, OP], ["analyze/sortstars/calc_radii/add_stars/..."], "attributes of StarCluster",
     "bounded explicit-state model checking of the real object over operation histories; every derived quantity recomputed from the arrays", "depth-bounded (3-5 quick, 4-6 thorough)")
prop("C05", "Looking at a cluster does not change it",
     "Analysis functions, profiles, coordinate queries, plotting and output writers leave the cluster as they found it: star data, units, origin, centre, orbit, stored save/restore state and radial "
     "orderings are all unchanged, in every unit system and origin, however often they are called.",
     ["configurations", "histories"], "every read-only call x every (units, origin) incl. sky x with/without a stored state and energies, each called twice",
     "Tests compare a few attributes after a few calls in one or two unit systems.",
     [FN, PR, CO, OU, OR, TA], ["units/origin saved on entry and restored on exit of each call"], "the whole StarCluster object before and after",
     "exhaustive enumeration of (call, units, origin, stored state) on the real object, whole-object comparison", "finite product enumerated completely")
prop("C06", "Analysis results are physical, whatever units, origin or earlier calls",
     "Every analysis quantity (lagrange, virial, core, tidal and limiting radii, relaxation times, energies, nearest neighbours, mass functions, velocity-dispersion relations and all radial profiles, with "
     "any star selection, 3D or projected) equals its documented definition for the physical cluster, expressed in the cluster's current units, whatever its unit system and origin. "
     "The result does not depend on which other analysis calls were made before.",
     ["configurations", "histories"], "every analysis call x selection x (units, origin), and every ordered pair of calls",
     "Tests compare against the code's own recipe in one unit system and almost never after other calls.",
     [FN, PR, CO], ["conversion on entry/exit of each analysis call"], "returned values",
     "exhaustive enumeration of (call, selection, units, origin) and ordered call pairs on the real object against an independent reference model",
     "call sequences of length 2 (pairs) complete over the registry")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = globals().get("NA", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=x, where=p["files"][0]) for x in p["mech"]], observe_at=[p["observe"]]))) + "\n")
na_ids = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] not in na_ids],
         not_applicable=NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
