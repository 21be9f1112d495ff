"""What each property's check runs, with its bounds."""
REPO_FUNCS = ("bladeink", "rinklecate")
OUTSIDE = {
    "C01": "programs beyond the generator's depth and constructs (choices inside conditionals, shuffles); more than 3000 steps; choices beyond the played depth; knots that begin with a fallback choice",
    "C02": "stories other than the templates; histories beyond the steps of the entry; host values other than the listed kinds; map orders other than one per run",
    "C03": "map orders other than the decided shifts of the hash keys; seeds other than the decided ones",
    "C04": "sequences of faults longer than two; allocation failure; stacks above 8 MB",
    "C05": "sources outside the corpus; choice paths beyond the depth; shuffles beyond the set of seeds",
    "C06": "sources that are not within one edit, one hole or one of the generated sequences of the listed ones; nesting above 4000",
    "C07": "expressions of more than two operators over symbolic operands; strings above three symbolic characters; lists over more than two declarations; symbolic float remainders (paths dropped)",
    "C08": "three or more pauses at arbitrary places; stories other than the ten",
    "C09": "three or more rejected calls in one history; stories other than the templates",
    "C10": "more than three flows; histories longer than the entry's number of operations",
    "C11": "histories longer than the entry's; observers that call back into the story (the interface gives them no access)",
    "C12": "sources of more than three segments; external functions with more than three arguments",
    "C13": "more than three messages in a history",
    "C14": "documents that are not a re-writing of a corpus or template story",
    "C15": "inputs with more than one edit of the listed stories and saves; nesting above 20000",
    "C16": "functions with side effects; stories other than the two; a function that faults (a fault ends the story in Ink)",
    "C17": "histories longer than the entry's; stories other than the templates",
    "C18": "histories longer than the entry's; memory the system allocator keeps for itself",
    "C19": "path texts and component sequences above the entry's lengths; objects of stories outside corpus and templates",
    "C20": "terminal behaviour and signals; files of sources outside the corpus; encodings other than the decided bytes",
}
# what an entry's variables range over
BOUNDS = {
    "c15_save_two": "two nodes of a save changed",
    "c12_three": "three segments",
    "c10_deep": "case 0: 9 operations; 1: 6 of any kind; 2: 6 with saves; 3: 6 with saves and removals",
    "c01_programs": "generated programs, one per case, selectors decided by the solver; two symbolic 32-bit globals; all choices to depth 6",
    "c01_more": "as c01_programs, over the larger grammar",
    "c01_pairs": "all pairs of 23 constructs in 9 places (case = place)",
    "c02_again": "save, load, play, save again; steps and choices decided", "c02_tpl": "case = template; up to 5 steps, save at any, all choices; symbolic globals",
    "c02_flows": "up to 4 operations (go, switch, jump) over three flows before the save", "c02_values": "case = kind of value; ints 32 bit, floats 32 bit, strings of 3 characters",
    "c03_play": "case = template; two plays under different map orders; 5 steps", "c03_corpus": "case = corpus source; compiled twice, played", "c03_missing": "messages made from maps (functions without binding), every map order shift",
    "c04_fault": "case = fault statement; operands of every type, ints 32 bit", "c04_host": "case = template; any host call with any argument kind after any step", "c04_wrap": "all pairs of 32-bit ints", "c04_random": "seed, bounds, counters at extremes",
    "c05_pair": "case = corpus pair; all choices to the depth the time allows",
    "c06_corpus": "case = corpus source as it is", "c06_bytes": "case = source; any character before, at or instead of any position", "c06_hole": "case = hole; any run of up to 3 characters", "c06_tokens": "sequences of tokens", "c06_lines": "case = skeleton; sequences of lines", "c06_moved": "case = source; one line removed, doubled or moved", "c06_names": "every use of every kind of name", "c06_nest": "case = construct; nesting to 4000",
    "c07_binary": "every operator over operands of every type; ints and floats 32 bit, strings to 3 characters", "c07_unary": "as c07_binary, one operand", "c07_lists": "lists by membership bits over two declarations", "c07_sets": "list algebra, case = function", "c07_power": "tables of bases and exponents", "c07_print": "values in text", "c07_range": "list ranges with symbolic bounds", "c07_two": "trees of two operators, case = outer operator", "c07_two_lists": "two list operators", "c07_mix": "a value made by one operator and used by another type's", "c07_literals": "literals of symbolic digits",
    "c08_one": "case = story; one pause at any internal step", "c08_every": "case = story; a pause after every n-th step, n in 1..", "c08_two": "two pauses",
    "c09_tpl": "case = template; 26 kinds of rejected call after any step", "c09_two": "two rejected calls", "c09_flows": "a rejected call among flow operations", "c09_hosted": "a story with externals",
    "c10_interleave": "7 operations over three flows, choices decided", "c10_kinds": "4 operations of any kind (go, jump, choose, tunnel, evaluate) over three flows", "c10_saves": "4 operations with saves and loads between them", "c10_remove": "5 operations with removals of flows",
    "c11_play": "case = template or variable story; observers on all globals", "c11_ops": "sequences of observer operations",
    "c12_one": "one segment in every mode", "c12_two": "two segments", "c12_host": "host evaluation of functions that call externals", "c12_values": "values of every kind in and out",
    "c13_two": "case = history shape; two messages", "c13_three": "three messages",
    "c14_corpus": "case = document", "c14_text": "strings of any characters", "c14_number": "numbers of any form", "c14_layout": "white space and key order", "c14_story": "whole plays, both builds",
    "c15_bytes": "any position, any byte", "c15_nodes": "any node replaced, renamed, removed", "c15_short": "texts of up to a few arbitrary bytes", "c15_nest": "nesting to 20000", "c15_save_bytes": "as c15_bytes on saves", "c15_save_nodes": "as c15_nodes on saves",
    "c16_eval": "any of 9 functions with symbolic arguments at any of 12 points", "c16_flows": "after 3 flow operations", "c16_refuse": "names of up to 3 arbitrary characters, bad names and argument kinds",
    "c17_tpl": "case = template; any history of the entry's length, then reset", "c17_flows": "histories with flows", "c17_jump": "jumps with call-stack reset",
    "c18_drop": "case = template; create, play, drop", "c18_instance": "repeated resets and loads", "c18_corpus": "case = corpus story",
    "c19_objects": "case = story; every object", "c19_pairs": "case = story; pairs of objects", "c19_texts": "path texts of arbitrary characters", "c19_two": "two component sequences", "c19_parts": "component sequences", "c19_names": "names of arbitrary characters", "c19_saves": "8 steps, every position in the save", "c19_corpus": "case = story; saves along every choice, 14 steps", "c19_jump": "host jumps to any object of the story",
    "c20_text": "programs with one symbolic character in text, tags, choices or strings", "c20_source": "sources with one symbolic character", "c20_input": "12 beginnings of input, one arbitrary byte, two endings; plain and -j", "c20_script": "any two of 33 input lines; plain and -j, -k or not", "c20_corpus": "case = corpus source; three inputs", "c20_names": "7 names x 5 outputs x -v x byte order mark", "c20_refused": "26 wrong sources in 4 contexts, with includes", "c20_compile": "-o output", "c20_other": "17 command lines that are no plain play", "c20_stats": "case = corpus source, statistics against the library",
}


def bounds(run):
    e = run["entry"]
    b = BOUNDS.get(e) or BOUNDS.get(e.removesuffix("_deep"), "")
    if e.endswith("_deep"):
        b += " (longer histories than in the quick tier)"
    return b + f"; cases {run.get('cases', '0')}; {run.get('time', 120)} s"


def assumptions(p):
    return ["HashMap iteration order: one order per run unless the entry varies it",
            "allocation never fails; single thread"]


def runs(p, tier):
    q = tier == "quick"
    if p == "T":
        return [dict(entry="t_play"), dict(entry="t_corpus", cases="0..120", validate=24, fuel=3_000_000_000)]
    if p == "C01":
        return [dict(entry="c01_programs", cases="0..800" if q else "0..20000", time=60, covers=["line", "choice", "end"]),
                dict(entry="c01_more", cases="0..800" if q else "0..20000", time=60, covers=["line", "choice", "end"]),
                dict(entry="c01_pairs", cases="0..9", time=60 if q else 900, covers=["line", "choice", "end"])]
    if p == "C02":
        return [dict(entry="c02_again" if q else "c02_again_deep", cases="0..4", time=30 if q else 900, covers=["saved again"]),
                dict(entry="c02_tpl" if q else "c02_tpl_deep", cases="0..8", time=45 if q else 900, covers=["save loaded"]),
                dict(entry="c02_flows" if q else "c02_flows_deep", time=30 if q else 900, covers=["flows compared"]),
                dict(entry="c02_values", cases="0..6", time=30 if q else 300, covers=["save loaded"])]
    if p == "C03":
        r = [dict(entry="c03_play" if q else "c03_play_deep", cases="0..9", time=70 if q else 1200, covers=["compared"]),
             dict(entry="c03_corpus", cases="0..121", time=60 if q else 600, covers=["compared"], fuel=3_000_000_000),
             dict(entry="c03_missing", time=10, covers=["compared"]),
             dict(entry="c03_play" if q else "c03_play_deep", flav="dbg", cases="0..9", time=30 if q else 900, covers=["compared"])]
        return r
    if p == "C04":
        c = ["reset compared"]
        return [dict(entry="c04_fault" if q else "c04_fault_deep", flav="dbg", cases="0..64", time=50 if q else 2000, covers=c + ["fault"]),
                dict(entry="c04_host" if q else "c04_host_deep", flav="dbg", cases="0..8", time=50 if q else 2000, covers=c + ["played on"]),
                dict(entry="c04_wrap", flav="dbg", time=15 if q else 300, covers=["wrapped", "list", "no quotient"]),
                dict(entry="c04_wrap", time=10 if q else 300, covers=["wrapped", "list", "no quotient"]),
                dict(entry="c04_random", flav="dbg", time=15 if q else 200, covers=["again"])]
    if p == "C05":
        return [dict(entry="c05_pair" if q else "c05_pair_deep", cases="0..121", time=100 if q else 3000, covers=["compared"], fuel=20_000_000_000)]
    if p == "C06":
        return [dict(entry="c06_corpus", cases="0..135", time=60, covers=["compiled", "again"], fuel=20_000_000_000),
                dict(entry="c06_bytes" if q else "c06_bytes_deep", cases="0..20", time=30 if q else 2000, covers=["compiled", "error"]),
                dict(entry="c06_hole" if q else "c06_hole_deep", cases="0..32", time=30 if q else 2000, covers=["compiled", "error"]),
                dict(entry="c06_tokens" if q else "c06_tokens_deep", cases="0..6", time=30 if q else 1500, covers=["compiled", "error"]),
                dict(entry="c06_lines" if q else "c06_lines_deep", cases="0..67", time=30 if q else 2000, covers=["compiled", "error"]),
                dict(entry="c06_moved", cases="0..135", time=15 if q else 600, covers=["compiled"], fuel=20_000_000_000),
                dict(entry="c06_names", time=20 if q else 100, covers=["compiled", "unknown"]),
                dict(entry="c06_nest", cases="0..56", time=20 if q else 100, covers=["compiled"], fuel=20_000_000_000)]
    if p == "C07":
        c = ["value", "condition", "error"]
        return [dict(entry="c07_binary" if q else "c07_binary_deep", time=40 if q else 1500, covers=c),
                dict(entry="c07_lists" if q else "c07_lists_deep", time=30 if q else 1000, covers=c + ["list"]),
                dict(entry="c07_unary" if q else "c07_unary_deep", time=20 if q else 200, covers=c + ["list"]),
                dict(entry="c07_sets", cases="0..24", time=40 if q else 300, covers=c + ["list"]),
                dict(entry="c07_power", time=15, covers=c),
                dict(entry="c07_print", time=15, covers=["printed", "in a string", "error"]),
                dict(entry="c07_range", time=20 if q else 100, covers=["value", "error"]),
                dict(entry="c07_two" if q else "c07_two_deep", cases="0..16", time=25 if q else 900, covers=["value", "error"]),
                dict(entry="c07_two_lists", cases="0..11", time=20 if q else 300, covers=["value", "error"]),
                dict(entry="c07_mix", cases="0..12", time=20 if q else 1200, covers=["value", "error"]),
                dict(entry="c07_literals" if q else "c07_literals_deep", time=40 if q else 600, covers=["value", "error"])]
    if p == "C08":
        r = [dict(entry="c08_one" if q else "c08_one_deep", cases="0..10", time=70 if q else 1200, covers=["paused", "guarded", "compared"]),
             dict(entry="c08_every", cases="0..10", time=60 if q else 900, covers=["paused", "guarded", "compared"])]
        if not q:
            r.append(dict(entry="c08_two", cases="0..10", time=1800, covers=["paused", "compared"]))
        return r
    if p == "C09":
        return [dict(entry="c09_hosted" if q else "c09_hosted_deep", time=25 if q else 600, covers=["rejected"]),
                dict(entry="c09_tpl" if q else "c09_tpl_deep", cases="0..8", time=50 if q else 900, covers=["rejected"]),
                dict(entry="c09_flows" if q else "c09_flows_deep", time=30 if q else 900, covers=["rejected"]),
                dict(entry="c09_two", time=30 if q else 300, covers=["rejected"])]
    if p == "C10":
        if q:
            return [dict(entry="c10_interleave", time=40, covers=["compared"]), dict(entry="c10_kinds", time=30, covers=["compared"]),
                    dict(entry="c10_saves", time=30, covers=["compared", "saved"]), dict(entry="c10_remove", time=30, covers=["compared", "removed"])]
        return [dict(entry="c10_deep", cases="0..4", time=1800, covers=["compared", "saved", "removed"])]
    if p == "C11":
        return [dict(entry="c11_play" if q else "c11_play_deep", cases="0..9", time=60 if q else 900, covers=["notified"]),
                dict(entry="c11_ops" if q else "c11_ops_deep", cases="0..2", time=60 if q else 900, covers=["notified"])]
    if p == "C12":
        c = ["unsafe", "safe", "refused", "fallback", "unbound"]
        r = [dict(entry="c12_one", time=60, covers=c), dict(entry="c12_two", time=60 if q else 600, covers=c),
             dict(entry="c12_host", time=30 if q else 300, covers=["evaluated"]), dict(entry="c12_values", time=30 if q else 200, covers=["returned"])]
        if not q:
            r.append(dict(entry="c12_three", time=1800, covers=c))
        return r
    if p == "C13":
        c = ["handler", "no handler", "version warning delivered", "warning delivered", "warning readable", "error", "reset", "redirected", "late handler", "paused"]
        return [dict(entry="c13_two", cases="0..10", time=60, covers=c), dict(entry="c13_three", cases="0..10", time=60 if q else 2400, covers=c)]
    if p == "C14":
        return [dict(entry="c14_corpus", flav="hook", cases="0..256", time=60 if q else 1500, covers=["compared"], fuel=30_000_000_000),
                dict(entry="c14_text" if q else "c14_text_deep", flav="hook", time=30 if q else 1500, covers=["compared"]),
                dict(entry="c14_number" if q else "c14_number_deep", flav="hook", time=35 if q else 1500, covers=["compared"]),
                dict(entry="c14_layout" if q else "c14_layout_deep", flav="hook", cases="0..9", time=20 if q else 600, covers=["compared"]),
                dict(entry="c14_story", flav="hook", cases="0..40", time=20, covers=["story"], fuel=30_000_000_000),
                dict(entry="c14_story", flav="hookstream", cases="0..40", time=20, covers=["story"], fuel=30_000_000_000)]
    if p == "C15":
        r = []
        for flav in ("rel", "stream"):
            a = ["refused", "accepted"]
            r += [dict(entry="c15_bytes" if q else "c15_bytes_deep", flav=flav, cases="0..4" if q else "0..11", time=20 if q else 900, covers=a),
                  dict(entry="c15_nodes", flav=flav, cases="0..6" if q else "0..11", time=20 if q else 900, covers=a),
                  dict(entry="c15_short", flav=flav, cases="0..12", time=15 if q else 900, covers=a),
                  dict(entry="c15_nest", flav=flav, cases="0", time=10 if q else 100, covers=a)]
        r += [dict(entry="c15_save_bytes" if q else "c15_save_bytes_deep", cases="0..7", time=20 if q else 900, covers=a + ["reset compared"]),
              dict(entry="c15_save_nodes", cases="0..7", time=25 if q else 900, covers=a + ["reset compared"]),
              dict(entry="c15_nest", cases="1", time=10 if q else 100, covers=a + ["reset compared"])]
        if not q:
            r.append(dict(entry="c15_save_two", cases="0..7", time=900, covers=a + ["reset compared"]))
        return r
    if p == "C16":
        return [dict(entry="c16_eval" if q else "c16_eval_deep", time=60 if q else 900, covers=["evaluated"]),
                dict(entry="c16_flows" if q else "c16_flows_deep", time=30 if q else 600, covers=["evaluated in a flow"]),
                dict(entry="c16_refuse", time=30 if q else 200, covers=["refused"])]
    if p == "C17":
        return [dict(entry="c17_tpl" if q else "c17_tpl_deep", cases="0..8", time=60 if q else 900, covers=["reset"]),
                dict(entry="c17_flows" if q else "c17_flows_deep", time=30 if q else 900, covers=["reset"]),
                dict(entry="c17_jump", cases="0..3", time=30 if q else 200, covers=["jumped"])]
    if p == "C19":
        h = dict(flav="hook")
        return [dict(h, entry="c19_objects", cases="0..264", time=60, covers=["addressed", "reference"], fuel=30_000_000_000),
                dict(h, entry="c19_pairs", cases="0..8" if q else "0..264", time=40 if q else 2000, covers=["relative"], fuel=30_000_000_000),
                dict(h, entry="c19_texts" if q else "c19_texts_deep", time=20 if q else 900, covers=["text"]),
                dict(h, entry="c19_two" if q else "c19_two_deep", time=20 if q else 900, covers=["equal", "different"]),
                dict(h, entry="c19_parts" if q else "c19_parts_deep", time=20 if q else 900, covers=["components"]),
                dict(h, entry="c19_names" if q else "c19_names_deep", time=20 if q else 900, covers=["named", "refused"]),
                dict(h, entry="c19_saves" if q else "c19_saves_deep", cases="0..8", time=20 if q else 600, covers=["saves", "position", "path"]),
                dict(h, entry="c19_corpus", cases="8..264", time=40 if q else 900, covers=["saves", "position", "path"], fuel=30_000_000_000),
                dict(h, entry="c19_jump", cases="0..40" if q else "0..264", time=20 if q else 900, covers=["jumped"], fuel=30_000_000_000)]
    if p == "C20":
        return [dict(entry="c20_text" if q else "c20_text_deep", cases="0..9", time=30 if q else 1500, covers=["json", "plain", "issues"]),
                dict(entry="c20_source", cases="0..6", time=30 if q else 600, covers=["json", "plain"]),
                dict(entry="c20_input" if q else "c20_input_deep", time=30 if q else 2000, covers=["json", "plain", "issues", "diverted", "not diverted", "chosen", "ignored", "quit", "help"]),
                dict(entry="c20_script" if q else "c20_script_deep", cases="0..8", time=40 if q else 2000, covers=["json", "plain", "issues", "diverted", "not diverted"]),
                dict(entry="c20_corpus", cases="0..135", time=40 if q else 600, covers=["json", "plain"], fuel=20_000_000_000),
                dict(entry="c20_names", time=20 if q else 100, covers=["written"]),
                dict(entry="c20_refused", time=20 if q else 100, covers=["compile error", "line"]),
                dict(entry="c20_compile", cases="0..135", time=40 if q else 300, covers=["written"], fuel=20_000_000_000),
                dict(entry="c20_other", time=10, covers=["run"]),
                dict(entry="c20_stats", cases="0..135", time=20 if q else 100, covers=["stats"], fuel=20_000_000_000)]
    if p == "C18":
        return [dict(entry="c18_drop" if q else "c18_drop_deep", cases="0..8", time=60 if q else 1200, covers=["dropped"]),
                dict(entry="c18_instance" if q else "c18_instance_deep", cases="0..8", time=40 if q else 900, covers=["reset", "loaded"]),
                dict(entry="c18_corpus", cases="0..121", time=50 if q else 900, covers=["dropped"], fuel=3_000_000_000)]
    raise SystemExit(f"unknown property {p}")
