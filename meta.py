#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
M = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, level="model_checking", note="", tech=""):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": list(observe), "hook_needed": hook}})
    M.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
              "evidence_file": "evidence/%s.json" % id, "technique": tech, "level": level, "level_note": note})


TREE_TECH = ("TLA+ specification AssetTree (TLC): invariants checked on every history of the bounded model; every one of those histories, random "
             "longer behaviours of the specification and random histories are replayed into the real library, and TLC validates each recorded trace against the specification (AssetTreeTrace)")
TREE_NOTE = "exhaustive over all histories of the operation menu up to the stated length; sampled beyond it"

prop("C01", "Locators address exactly the components that are loaded",
     "At every point of every history of loads, replacements, subtree loads, state loads and resets, a locator resolves to a component exactly when a component of the requested type is loaded under it, and then to that very component, whose own reported locator and name lead back to it. A load returns the component now found under its locator, and malformed or unknown locators resolve to nothing without an error escaping. The printed asset tree shows every loaded component once below its owner, with its implementation and, on request, what it refers to.",
     ["histories", "inputs"], "all sequences of asset operations over nested groups, names that are prefixes of one another, owned sub-components, and all locator texts",
     "The tests look up a handful of locators in two- or three-asset trees built in one order; what a locator means after replacement, failed loads, relocation and reload is never compared over histories.",
     ["src/assetgroup.cpp", "src/component.cpp", "src/user.cpp", "include/lm/component.h", "src/debug.cpp"],
     [("locator trace-down from the root", "src/component.cpp"), ("asset index map", "src/assetgroup.cpp")],
     [("asset index map", "name to asset of a group", "src/assetgroup.cpp"), ("locator", "global address of a component", "include/lm/component.h")],
     ["component lookup by locator", "return value of a load", "locator and name reported by a component"], tech=TREE_TECH, note=TREE_NOTE)

prop("C02", "References follow an asset when it is replaced",
     "After an asset is replaced under the same name, every component anywhere in the tree that referred to it, or to anything it owns, refers to the component now found under that locator, or to nothing when there is no such component of the declared type; no reference ever designates a destroyed component. References that had nothing to do with the replaced asset are unaffected.",
     ["histories", "programs"], "all histories of loads and replacements over nested groups, typed references, self references, references into owned sub-components, and all built-in holders of references",
     "The tests replace one asset referenced by one other component of a test type; they never replace groups, owners of referenced sub-components, assets of another type, or assets referenced by most built-in components.",
     ["src/assetgroup.cpp", "include/lm/component.h", "src/scene.cpp", "src/material", "src/light", "src/medium", "src/volume", "src/renderer", "src/model"],
     [("visitation of the object tree after a replacement", "src/assetgroup.cpp"), ("update of a weak reference through its locator", "include/lm/component.h"), ("enumeration of underlying components", "src/**")],
     [("weak references", "raw pointers to components owned elsewhere", "src/**")],
     ["pointers held by components", "results computed through a reference"], tech=TREE_TECH, note=TREE_NOTE)

prop("C03", "A failed load changes nothing",
     "When loading an asset, a serialized asset or a state file fails, whatever the cause (unknown implementation, invalid name or property, unresolved reference, exception during construction, missing, truncated or foreign file), the failure is reported and the asset tree is left exactly as it was: same components, same instances, same references, and the name is still free or still bound to the old component. Components created in vain are destroyed.",
     ["fault_sequences", "histories", "crash_points"], "every failing operation at every position of a history, failures at every stage of construction and at every truncation point of a file",
     "The tests only cover the failure of creating a component with an unknown key; no test looks at the tree after a failure, fails midway through construction or loading, or continues to use the tree afterwards.",
     ["src/assetgroup.cpp", "src/user.cpp", "include/lm/serial.h", "src/component.cpp"],
     [("registration before construction and its rollback", "src/assetgroup.cpp"), ("restoration of the previous state", "src/user.cpp")],
     [("asset index map", "name to asset of a group", "src/assetgroup.cpp")],
     ["outcome of the load", "asset tree after the failure", "births and deaths of components"], tech=TREE_TECH, note=TREE_NOTE)

prop("C05", "A saved subtree is self-contained and can be loaded anywhere",
     "Saving a subtree succeeds exactly when no component in it refers to anything outside it, and is refused otherwise. A saved subtree can be loaded under any free valid name in any group, any number of times and in a later session, and yields components that equal the saved ones, with references among them designating the corresponding components of the new copy and the rest of the tree untouched.",
     ["histories", "inputs"], "all subtrees (assets, groups, names that are prefixes of other names), all reference patterns inside, into and out of the subtree, all destinations",
     "The tests save and load one fixed pair of components under fixed names; outer references by prefix-like siblings, relocation into nested groups and repeated loads are not covered.",
     ["include/lm/serial.h", "include/lm/serialtype.h", "src/serial.cpp", "src/assetgroup.cpp"],
     [("root locator of the archive", "include/lm/serialtype.h"), ("outer reference test", "include/lm/serial.h"), ("deferred recovery of weak references", "include/lm/serialtype.h")],
     [("archive root locator", "base of relative locators", "include/lm/serialtype.h")],
     ["outcome of saving", "loaded components and their references"], tech=TREE_TECH, note=TREE_NOTE)

prop("C07", "Every component is destroyed exactly once, as soon as it is replaced",
     "In every history each component ever created is destroyed exactly once: when it leaves the tree by replacement, reset or state load, or when the operation that created it fails; never while it is still reachable under its locator, and never later than the end of the operation that removed it.",
     ["histories", "fault_sequences"], "all histories of loads, failures, replacements, subtree and state loads and resets",
     "No test counts constructions and destructions; leaks and double releases in failure and replacement paths are invisible to them.",
     ["include/lm/component.h", "src/component.cpp", "src/assetgroup.cpp", "src/user.cpp"],
     [("unique ownership with registered release function", "include/lm/component.h"), ("old instance kept until references are updated", "src/assetgroup.cpp")],
     [("create and release functions", "recorded per instance at creation", "include/lm/component.h")],
     ["constructor and destructor calls of user components"], tech=TREE_TECH, note=TREE_NOTE)

exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None

if __name__ == "__main__":
    P.sort(key=lambda p: p["id"])
    M.sort(key=lambda p: p["property"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "LM_VERIF_HOOKS", "enable": "the checks compile /repo's sources with -DLM_VERIF_HOOKS (no hook is needed so far)", "source_commits": []},
           "checks": M, "not_applicable": NA,
           "notes": "TLA+ specifications in spec/, harness in harness/, checks in checks/, see DESIGN.md"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
