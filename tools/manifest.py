#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Sound for every input on the paths of the analysed source, relative to the term model: "
        "interfaces implemented by callers are pure accessors, and the standard library, x/text, zap and tally behave as documented. ")
SYM = "path-sensitive abstract interpretation of SSA over provenance terms: "
T = {
 "C01": (SYM + "header/body provenance", "Decides which value each header and the body come from on every path of the three negotiators, not the bytes themselves."),
 "C02": (SYM + "response typestate", "Order and number of header, status and body operations on every path, with the error each path returns."),
 "C03": (SYM + "error-flow", "Every call with an error result in negotiators and choosers; errors inside comparison and filtering closures are not covered."),
 "C04": (SYM + "guarded effects", "What a negotiation of zero representations may do, on every path."),
 "C05": (SYM + "status by body provenance", "Constant status and TCN against the provenance of the body and the facts of the path."),
 "C25": (SYM + "counter totals", "Increment multiset per path, deferred calls included, against status and error."),
 "C06": (SYM + "guard region evaluation", "Gates are compared with the documented decision on every sign region of the quantities the guards read."),
 "C07": (SYM + "call and argument provenance", "Decides which constructors, chooser and arguments produce the 406, not what user supplied constructors return."),
 "C08": (SYM + "guard region evaluation and option effects", "Comparisons of length and bound on all sign regions, effects by dominance on paths."),
 "C09": (SYM + "guard region evaluation", "The choose decision is compared with the documented one over all directive valuations."),
 "C11": (SYM + "normal forms of built text", "The Alternates text is followed as a term through the constructor and formatting functions; what strconv and fmt print is trusted."),
 "C12": (SYM + "filter and set-flow analysis", "Follows the set of variants through every filtering step of the chooser; the sort and comparison primitives are trusted."),
 "C13": (SYM + "filter key extraction", "Each narrowing step is reduced to a key and a direction, the steps to an order; qualities are compared to three decimals as coded."),
 "C14": (SYM + "score provenance and guard region evaluation", "The factors of the score and the definiteness of every match; the score is rounded to five decimals as RFC 2296 says."),
 "C15": (SYM + "header to attribute wiring", "Which header text reaches which match and which attribute, and the absent cases; the matching itself is C18."),
 "C16": (SYM + "weight provenance, region evaluation, regular language inclusion", "Expressions are compared with the grammar as automata; mime.ParseMediaType, strconv.ParseFloat and language.Parse are trusted."),
 "C17": (SYM + "list provenance and automaton comparison of the splitter", "The traversal of a line is compared with a reference splitter over all states and characters; language.ParseAcceptLanguage is trusted for elements of positive weight."),
 "C18": (SYM + "decision of boolean functions over classes of inputs", "Compatible of media, charset and coding ranges decided on all classes the conditions tell apart; x/text decides which tags a language range other than the wildcard matches."),
 "C19": (SYM + "decision of sort comparisons over classes of ranges", "Every pair of classes of ranges, and the traversal that takes the first match; the sort package and the order x/text gives to language tags are trusted."),
 "C20": (SYM + "regular-language inclusion for the groups of expressions, decision of predicates over classes of feature sets", "Ranges are decided for lists of up to three values, and the loop shown to traverse all; the regexp, strconv and strings packages are trusted."),
 "C21": (SYM + "symbolic replay of the writers, readers and buffers of each path", "Lists of up to three codings, every combination of customized tables none, all or one; the compress packages and io are trusted."),
 "C22": (SYM + "table lookups decided over classes of media types and codings, comparison of the default tables entry by entry", "Lists of up to three codings; the meaning of the strings package is trusted."),
 "C23": (SYM + "frame conditions of setters and loop summaries", "Arbitrary contents; the accessors of user supplied representations are trusted."),
 "C24": ("interprocedural write-effect analysis over storage regions", "Flow-insensitive, fields merged; user supplied representations, constructors and algorithms are trusted."),
 "C26": (SYM + "option effects and wiring", "The effect of each option on arbitrary options, and the way of every setting into the negotiator."),
 "C27": (SYM + "panic obligations discharged from path facts", "All operations of the module that can panic; user code and library internals are trusted."),
 "C10": (SYM + "guard region evaluation over normal forms", "Neighbor test by symmetric normal forms of both URLs; the meaning of net/url is trusted."),
}
NA = {
 "C28": "optimality over real-valued products of arbitrary weights and rounding is numeric; no static argument in reach bounds it (C12-C14 decide the structure of the ranking instead)",
 "C29": "language range matching is delegated to golang.org/x/text/language, whose tables and matching code no static rule here can decide against RFC 4647",
 "C30": "equality of a list and its serialized and reparsed form depends on encoding/json, encoding/xml and yaml at run time (C22 and C23 decide dispatch and metadata)",
 "C31": "whether the bytes of compress/zlib, compress/lzw and compress/gzip conform to a format is a property of library output, not decidable from this source",
}
PENDING = "the check for this property is not built yet"
exec(open(os.path.join(here, "tools", "table.py")).read()) if os.path.exists(os.path.join(here, "tools", "table.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash thorough.sh {i}",
            "technique": "static analysis: " + T[i][0], "level": "other", "level_note": BASE + T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
