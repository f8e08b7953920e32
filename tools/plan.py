"""What each check explores: the workbenches TLC runs and the families of recorded executions."""
import random

import families as F


def b(module, sim=None, xmx="4g", **consts):
    consts.setdefault("Deep", set())
    consts.setdefault("FlagSets", "none")
    return dict(module=module, consts=consts, simulate=sim, xmx=xmx)


def types(focus, depth, wide=False, **k):
    return b("Workbench", Focus=focus, MaxDepth=depth, Wide=wide, **k)


REFS = {"references"}
STD = "the characters of names are those of spec/chars.json; limits of nodes and nesting are zones, not points"

PLAN = {
    "U01": dict(
        debug=True,
        quick=lambda s: [b("WbLimits", Counts="<- RunCounts", FirstFamily=1, LastFamily=0)],
        thorough=lambda s: [b("WbLimits", Counts="<- FullCounts", FirstFamily=1, LastFamily=0, xmx="12g")],
        families=[F.survive, F.fuzz("any", 3000, 40000, flaws=0.3), F.mutants(3000, 40000)]),
    "U02": dict(
        quick=lambda s: [], families=[F.histories, F.long_histories, F.neighbours]),
    "U03": dict(
        quick=lambda s: [], families=[F.long_histories, F.neighbours, F.concurrent]),
    "U04": dict(
        quick=lambda s: [b("WbDecl", MaxDepth=1, Kinds={"fn"}, FlagSets="single", Deep=REFS),
                         b("WbDecl", sim=(40, 7, 1), MaxDepth=6, Kinds={"fn"}, Deep=REFS)],
        thorough=lambda s: [b("WbDecl", MaxDepth=2, Kinds={"fn"}, FlagSets="none", xmx="12g"),
                            b("WbDecl", sim=(4000, 9, 1), MaxDepth=9, Kinds={"fn"}, FlagSets="single", Deep=REFS)],
        families=[F.fuzz("function", 15000, 150000), F.wide("function", 2500, 40000), F.numbers(1000, 20000, F.THUNKS)]),
    "U05": dict(
        quick=lambda s: [types("types", 1),
                         types("deep", 6, sim=(12, 6, 2)), types("types", 5, sim=(15, 5, 3)),
                         b("WbDecl", MaxDepth=1, Kinds={"var"})],
        thorough=lambda s: [types("types", 1, Deep={"flags", "references"}, FlagSets="single", xmx="12g"), types("deep", 2, xmx="12g"),
                            types("deep", 9, sim=(3000, 9, 2)), types("types", 9, True, sim=(3000, 7, 3)),
                            b("WbDecl", MaxDepth=3, Kinds={"var"})],
        families=[F.fuzz("variable", 12000, 120000), F.wide("variable", 2500, 40000), F.numbers(1000, 20000, F.ARRAYS)]),
    "U06": dict(
        quick=lambda s: [b("WbRefs", MaxDepth=2, Table1="names", Deep={"references", "dangling"}),
                         b("WbRefs", sim=(2, 14, 4), MaxDepth=14, Table1="names", Deep={"references", "dangling"})],
        thorough=lambda s: [b("WbRefs", MaxDepth=3, Table1="names", Deep={"references", "dangling"}, xmx="12g"),
                            b("WbRefs", sim=(1500, 16, 4), MaxDepth=16, Table1="names", FlagSets="single", Deep={"references", "dangling"})],
        families=[F.fuzz("any", 12000, 120000, refs=0.5, tpl=0.3), F.wide("any", 2000, 40000, refs=0.15)]),
    "U07": dict(
        quick=lambda s: [b("WbRefs", MaxDepth=2, Table1="params", Deep={"references", "dangling"}),
                         b("WbRefs", sim=(2, 14, 5), MaxDepth=14, Table1="params", Deep={"references", "dangling"})],
        thorough=lambda s: [b("WbRefs", MaxDepth=3, Table1="params", Deep={"references", "dangling"}, xmx="12g"),
                            b("WbRefs", sim=(1500, 16, 5), MaxDepth=16, Table1="params", FlagSets="single", Deep={"references", "dangling"})],
        families=[F.fuzz("function", 12000, 120000, refs=0.45, size=8), F.wide("function", 2000, 40000, refs=0.15)]),
    "U08": dict(
        quick=lambda s: [b("WbArgs", MaxDepth=1, Few=False, FlagSets="single", Deep=REFS),
                         b("WbArgs", sim=(6, 5, 6), MaxDepth=5, Few=False, Deep=REFS)],
        thorough=lambda s: [b("WbArgs", MaxDepth=2, Few=False, FlagSets="none", Deep=REFS, xmx="12g"),
                            b("WbArgs", MaxDepth=3, Few=True, xmx="12g"),
                            b("WbArgs", sim=(1500, 9, 6), MaxDepth=9, Few=False, FlagSets="single", Deep=REFS)],
        families=[F.fuzz("any", 10000, 100000, tpl=0.6), F.wide("any", 2500, 40000, tpl=0.5)]),
    "U09": dict(
        quick=lambda s: [b("WbNumbers", MaxDepth=2, Nibbles={0, 1, 8, 15}, FirstNibbles=set(range(16)), Starts0="<- Boundaries"),
                         b("WbNumbers", sim=(2, 20, 7), MaxDepth=20, Nibbles=set(range(16)), FirstNibbles=set(range(16)), Starts0="<- Boundaries")],
        thorough=lambda s: [b("WbNumbers", MaxDepth=3, Nibbles=set(range(16)), FirstNibbles=set(range(16)), Starts0="<- Boundaries", xmx="12g"),
                            b("WbNumbers", sim=(2000, 20, 7), MaxDepth=20, Nibbles=set(range(16)), FirstNibbles=set(range(16)), Starts0="<- Boundaries", FlagSets="single")],
        families=[F.numbers(4000, 60000)]),
    "U10": dict(
        quick=lambda s: [b("WbStrings", MaxDepth=1, Codes="<- AllCodes", Sizes=set(), Deep={"odd"}),
                         b("WbStrings", sim=(10, 36, 8), MaxDepth=36, Codes="<- AllCodes", Sizes={2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33}, Deep={"odd"})],
        thorough=lambda s: [b("WbStrings", MaxDepth=2, Codes="<- AllCodes", Sizes=set(), Deep={"odd"}, xmx="12g"),
                            b("WbStrings", MaxDepth=3, Codes="<- FewCodes", Sizes=set(), xmx="12g"),
                            b("WbStrings", sim=(1500, 140, 8), MaxDepth=140, Codes="<- AllCodes", Sizes=set(), Deep={"odd"})],
        families=[F.fuzz("string", 4000, 60000), F.fuzz("string", 1500, 20000, flaws=1.0)]),
    "U11": dict(
        quick=lambda s: [b("WbSpecial", Groups={"operators", "structors", "tables", "others", "codes"}, Deep=REFS)],
        thorough=lambda s: [b("WbSpecial", Groups={"operators", "structors", "tables", "others", "codes"}, Deep={"references", "flags"}, FlagSets="pair")],
        families=[F.fuzz("special", 4000, 60000), F.fuzz("any", 2000, 20000, ops=0.8), F.numbers(1000, 20000, F.TABLES)]),
    "U12": dict(
        quick=lambda s: [types("types", 3, FlagSets="pair", sim=(1, 3, 9), Deep={"flags"}),
                         types("deep", 4, FlagSets="single", sim=(2, 4, 10), Deep={"flags"}),
                         b("WbDecl", MaxDepth=1, Kinds={"fn", "var"}, FlagSets="pair", Deep={"flags", "combinations"}),
                         b("WbDecl", sim=(10, 5, 11), MaxDepth=5, Kinds={"fn", "var"}, FlagSets="pair", Deep={"flags"}),
                         b("WbSpecial", Groups={"structors", "tables", "others"}, FlagSets="single", Deep={"flags"})],
        thorough=lambda s: [types("types", 1, FlagSets="single", Deep={"flags"}, xmx="12g"),
                            types("deep", 6, FlagSets="all", sim=(300, 6, 10), Deep={"flags", "combinations"}),
                            b("WbDecl", MaxDepth=2, Kinds={"fn", "var"}, FlagSets="single", Deep={"flags"}, xmx="12g"),
                            b("WbDecl", sim=(600, 8, 11), MaxDepth=8, Kinds={"fn", "var"}, FlagSets="all", Deep={"flags", "combinations"}),
                            b("WbSpecial", Groups={"operators", "structors", "tables", "others"}, FlagSets="pair", Deep={"flags", "combinations"}),
                            b("WbArgs", MaxDepth=1, Few=False, FlagSets="pair", Deep={"flags"})],
        families=[F.named_flags, F.flagged(12000, 120000), F.wide("any", 2000, 30000, flagged=1.0)]),
    "U13": dict(
        quick=lambda s: [types("types", 3, sim=(10, 3, 12), Deep={"truncation"}),
                         b("WbDecl", sim=(10, 5, 13), MaxDepth=5, Kinds={"fn", "var"}, Deep={"truncation"}),
                         b("WbSpecial", Groups={"codes"})],
        thorough=lambda s: [b("WbDecl", MaxDepth=1, Kinds={"fn", "var"}, Deep={"truncation"}),
                            types("deep", 5, sim=(800, 5, 12), Deep={"truncation"}),
                            b("WbSpecial", Groups={"operators", "structors", "tables", "others", "codes"}, Deep={"truncation"}, xmx="12g"),
                            b("WbArgs", MaxDepth=1, Few=False, Deep={"truncation"})],
        families=[F.truncated(3000, 40000), F.mutants(6000, 80000), F.fuzz("any", 3000, 40000, flaws=0.7), F.places(20000, 200000), F.short]),
    "U14": dict(
        quick=lambda s: [b("WbLimits", Counts="<- QuickCounts", FirstFamily=1, LastFamily=0, xmx="6g")],
        thorough=lambda s: [b("WbLimits", Counts="<- FullCounts", FirstFamily=1, LastFamily=0, xmx="12g")],
        families=[F.near_limit, F.levels, F.rendered]),
    "U15": dict(
        quick=lambda s: [b("WbText", MaxDepth=1, Chars="<- AllChars", Doubling=False),
                         b("WbText", sim=(4, 9, 14), MaxDepth=9, Chars="<- FewChars", Doubling=True)],
        thorough=lambda s: [b("WbText", MaxDepth=2, Chars="<- FewChars", Doubling=True, FlagSets="single"),
                            b("WbText", MaxDepth=1, Chars="<- AllChars", Doubling=False, FlagSets="single"),
                            b("WbText", sim=(400, 14, 14), MaxDepth=14, Chars="<- AllChars", Doubling=True)],
        families=[F.fuzz("any", 12000, 120000, uni=0.9), F.wide("any", 2500, 40000, uni=0.5)]),
    "U16": dict(
        quick=lambda s: [types("scopes", 2, Deep=REFS, FlagSets="single"),
                         types("scopes", 7, sim=(12, 7, 15), Deep=REFS)],
        thorough=lambda s: [types("scopes", 3, Deep=REFS, xmx="12g"), types("scopes", 10, True, sim=(2000, 10, 15), Deep=REFS, FlagSets="single")],
        families=[F.fuzz("any", 12000, 120000, local=0.3, refs=0.3), F.wide("any", 2500, 40000, local=0.1), F.numbers(1000, 10000, F.SCOPES)]),
    "U17": dict(
        reasons=True,
        quick=lambda s: [b("WbLimits", Counts="<- RunCounts", FirstFamily=1, LastFamily=0),
                         b("WbRefs", MaxDepth=2, Table1="names", Deep={"dangling"}),
                         b("WbRefs", MaxDepth=1, Table1="params", Deep={"dangling"}),
                         b("WbRefs", sim=(1, 14, 16), MaxDepth=14, Table1="names", Deep={"dangling"}),
                         b("WbSpecial", Groups={"codes"})],
        thorough=lambda s: [b("WbLimits", Counts="<- FullCounts", FirstFamily=1, LastFamily=0, xmx="12g"),
                            b("WbRefs", sim=(1000, 16, 16), MaxDepth=16, Table1="names", Deep={"dangling"}),
                            b("WbRefs", sim=(1000, 16, 17), MaxDepth=16, Table1="params", Deep={"dangling"}),
                            b("WbDecl", MaxDepth=1, Kinds={"fn", "var"}, Deep={"truncation"}),
                            b("WbSpecial", Groups={"codes"})],
        families=[F.refused(5000, 80000), F.fuzz("any", 3000, 40000, flaws=0.7, refs=0.3), F.mutants(3000, 40000), F.near_limit, F.short]),
    "U18": dict(
        quick=lambda s: [],
        families=[F.memory(9000, 150000)]),
}
for v in PLAN.values():
    v.setdefault("assumes", [STD])
