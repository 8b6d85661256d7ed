"""Property catalogue: source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # claimed
NA = []  # not applicable


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
            note=note,
        )
    )


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, [], None)
    NA.append(dict(property=id, reason=reason))


prop(
    "C01",
    "Events are drawn in proportion to their rates, with exponential waiting times",
    "Each kMC step picks event i with probability rate_i / total rate and advances time by -ln(u)/total for an independent uniform u. "
    "Only an event whose rate is positive can be picked and the waiting time is finite and non-negative for every draw in [0, 1). "
    "When every rate is zero the step is refused with an error instead of returning an event.",
    ["inputs", "histories"],
    "all non-negative rate vectors and all values of the two uniform draws, before and after executed events",
    "Tests run fixed seeds; boundary draws (0, exact cumulative boundaries) and zero-rate layouts are never sampled.",
    ["kmcpy/simulator/kmc.py"],
    [("event proposal", "KMC.propose / _propose"), ("cumulative rate list", "KMC.__init__, KMC.update")],
    ["KMC.propose", "KMC.update"],
    "Solver verdict over all rates and draws for up to 4 (thorough 6) events; logarithm is an uninterpreted function with its defining axioms; real arithmetic.",
)
prop(
    "C02",
    "After any history every event's rate is the rate of the current state",
    "After any sequence of executed events, the rates that drive the next selection and waiting time equal the rates the model gives for the "
    "current occupations, for every event of the library. Models that keep their own copy of the occupations are initialised once and told of every executed event exactly once. "
    "This holds for models whose rate depends on the event's own sites, and for local barrier rules with any site selection.",
    ["histories", "inputs", "configurations"],
    "all initial states, all event histories within the bound, all rate functions of an event's own sites, several library topologies",
    "Tests compare a few steps of fixed models; a missed refresh shows only for particular overlaps of events and histories.",
    ["kmcpy/simulator/kmc.py", "kmcpy/event/base.py", "kmcpy/models/local_barrier_model.py", "kmcpy/simulator/state.py"],
    [("incremental rate update", "KMC.update"), ("dependency lists", "EventLib.get_dependent_events"), ("model hooks", "KMC._apply_model_event")],
    ["KMC.update", "KMC.propose"],
    "Rates are arbitrary symbolic functions of the event's sites; histories of up to 2 (thorough 3) events on up to 6 sites.",
)
prop(
    "C03",
    "An event depends on exactly the events that share a site with it",
    "After generating dependencies, the dependency list of an event contains another event exactly when the two share at least one endpoint or environment site (itself included), without duplicates and whatever the order or size of site indices. "
    "Looking up the events of a site returns exactly the events using it, and regenerating after adding events takes the new events into account.",
    ["inputs", "configurations"],
    "all endpoint and environment indices within the bound, repeated and unsorted environments included",
    "Tests check a handful of hand-written libraries.",
    ["kmcpy/event/base.py"],
    [("dependency generation", "EventLib.generate_event_dependencies"), ("sorted two-pointer intersection", "_arrays_intersect")],
    ["EventLib.get_dependent_events", "EventLib.get_events_involving_site"],
    "Symbolic site indices for 2-4 events.",
)
prop(
    "C04",
    "Executing an event moves exactly one ion between its endpoints",
    "Executing an event moves the mobile ion from its occupied endpoint to its vacant endpoint, in each endpoint's own state encoding, and changes no other site; the number of mobile ions never changes and executing the same event again restores the occupations. "
    "Each execution adds the waiting time to the simulation time and one to the step counter, and a state never shares its occupations with the list it was made from or with its copies.",
    ["inputs", "histories"],
    "all occupations, all per-site mobile/vacancy encodings, all waiting times, histories within the bound",
    "Tests use a single binary encoding and fixed occupations.",
    ["kmcpy/simulator/state.py", "kmcpy/event/hop.py", "kmcpy/simulator/kmc.py"],
    [("occupation update", "State.apply_event"), ("endpoint codes", "HopStateLookup.annotate_event")],
    ["State.occupations", "State.time", "State.step"],
    "3-4 sites, state codes up to 3, histories of up to 2 (thorough 3) events.",
)
prop(
    "C05",
    "Composite rates obey the Arrhenius law and microscopic reversibility",
    "The rate of a possible hop is v*exp(-(E_KRA + dE/2)/(kB T)) with dE the site-energy change of that hop (sign taken from the current hop direction for expansions, after-minus-before and unit-converted for external models), and a hop and its reverse satisfy forward/backward = exp(-dE/(kB T)). "
    "The rate is exactly zero when the endpoints do not hold one mobile ion and one vacancy, positive otherwise, and evaluating it never changes the state.",
    ["inputs", "configurations"],
    "all expansion coefficients, occupations, attempt frequencies, temperatures and site-energy values; four kinds of site model",
    "Tests compare a few numbers; sign, factor and unit errors in one direction or for one site-model kind escape them.",
    ["kmcpy/models/composite_lce_model.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/models/site_energy.py", "kmcpy/event/hop.py"],
    [("rate formula", "CompositeLCEModel.compute_probability"), ("direction", "event_direction")],
    ["CompositeLCEModel.compute_probability"],
    "exp is uninterpreted with its functional axioms; real arithmetic; one event with up to 3 environment sites.",
)

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    nas = {x["property"] for x in NA}
    checks = []
    for p in P:
        if p["id"] in nas:
            continue
        checks.append(
            dict(
                property=p["id"],
                quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique="symbolic execution of the real source with SMT (z3); counterexamples replayed on the real code",
                level="model_checking",
                level_note=p["note"],
            )
        )
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python tools/selftest.py",
        checks=checks,
        not_applicable=NA,
        notes="Engine in sx/, harnesses in props/. The encoding is regenerated from /repo's current source on every run. No hooks in /repo.",
    )
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
