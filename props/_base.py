PROPS: list = []
NOT_APPLICABLE: list = []

AI = "abstract interpretation of the source (path-sensitive, symbolic values, library failure model)"
NOTE = ("Decided from the source on every run, for every input the symbolic arguments stand for. Reports only definite violations; "
        "what the analysis cannot resolve is listed as undecided in the evidence. Trusts the model of library calls.")


def prop(id, title, statement, over, quant, why, files, mech, technique=AI, level_note=NOTE, observe=None):
    a = {"files": [f"conda_recipe_manager/{f}" for f in files], "mechanism": [{"name": n, "where": f"conda_recipe_manager/{w}"} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": a, "technique": technique, "level_note": level_note})


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech)
    NOT_APPLICABLE.append({"property": id, "reason": reason})
