"""Which query decides which property, and how the queries are run."""
import time, os, sys, traceback
import dump, ck, roots
from ck import Col

def next_checks():
    import q_next as q
    D = {}
    D["C01"] = dict(q=[q.c01], also=q.c01_also, rule="Forward dataflow over the MIR of the parser from its public entry points, for every parser state and message type byte: every panicking operation reached (index, slice, arithmetic overflow, unwrap/expect, explicit panic, capacity) must be shown unreachable by the facts of each path, with loop summaries; invariants of the parser's parts are inferred and checked inductive.")
    D["C03"] = dict(q=[q.c03], rule="Every return of a pull that yields an item must lie on paths without an end-of-file or failed read, its value must not contain a buffer the reader did not fill, and every stream byte it uses lies before the reader's position; every path with an end-of-file read returns an error, or None only when the failing read is the message's size prefix.")
    D["C04"] = dict(q=[q.c04], rule="Every path on which a read failed returns an error item; no path that yields an item or ends the stream passes a failed text check or skips a message.")
    D["C05"] = dict(q=[q.c05], end=lambda c, i: q.c05_end(c), rule="Every return of None is traced to end-of-file at a message boundary, a reached data limit or an earlier end; from every state left behind by None, a further pull is analysed and must return None without reading.")
    D["C06"] = dict(q=[q.c06], end=q.c06_end, rule="Typestate over the parser's state field: from the state the constructor leaves, an item is only returned under facts that fix the seven magic bytes and sixteen delivered bytes; the states reachable after a bad header never return an item.")
    D["C07"] = dict(q=[q.c07], rule="On every path that returns an item or a decode error, the reader's final position equals message start + 3 + the little-endian size, as a canonical linear term.")
    D["C08"] = dict(q=[q.c08, q.c08_inserts], end=q.c08_end, rule="Value provenance: every field of every yielded item, followed through the code as a term over the stream, must be the decode of exactly the offsets, widths and byte order of the layout table; an item's kind requires its own type byte on the path.")
    D["C12"] = dict(q=[q.c12], end=q.c12_end, rule="Value provenance of unhandled items: type byte and the complete body as stream terms; message types that are not interpreted never lead to an error in either section.")
    D["C18"] = dict(q=[q.c18, q.c18_limit], end=q.c18_end, rule="Path facts at every accepted flag-bits item must fix all unknown incompatible bits to zero; the recorded limit is the first non-zero offset and only under the data-appended bit; every message read happens under the fact that the byte count is below the limit, and the count equals the bytes taken.")
    D["C22"] = dict(q=[q.c22], rule="Effect analysis of the parser's retained state: the difference between the parser before and after every pull may only grow under a format-definition or subscription type byte.")
    import q_data as d
    D["C13"] = dict(q=[d.c13], end=d.c13_end, rule="Value provenance and table effects: every pull's change of the subscription and format tables, as terms, is exactly one insertion of the yielded item under its own key, a removal of the id a removal message names, or nothing; decoded data carries the format term formats[subscriptions[id].name] and only exists under the fact that the id is present.")
    D["C14"] = dict(q=[d.c14], end=d.c14_end, also=d.allow_list_setup, rule="Path facts: decoded items require 'no list or id selected', ignored ones 'list and id not selected'; every subscription leaves its id selected exactly when its name is listed (an inductive step over the selected-id set), and nothing else changes the selection.")
    D["C15"] = dict(q=[d.c15], end=d.c15_end, rule="Value provenance of the instance index (the multi_id of the very subscription looked up) under the fact that the name is, or is not, in the set of multi-instance names; every subscription adds its name to that set exactly when its index is non-zero.")
    import q_fields as e
    D["C09"] = dict(q=[e.c09], end=e.c09_end, also=e.c09_nested, rule="The loop that builds a data message's fields is summarised and judged one iteration at a time, for the message and for the recursive decoder of nested values: under the facts that fix the field's declared type, the appended value's variant, decode term (width, signedness, little-endian, offset = cursor), element count and the cursor's advance must be those of that type; nested values must be decoded at the cursor with the format their type names.")
    D["C16"] = dict(q=[e.c16], end=e.c16_end, rule="Value provenance of the reported timestamp: it is the field loop's own variable, empty before the first field, set by an iteration exactly under the facts 'scalar uint64_t' and 'named timestamp', to that field's decode term, and untouched by nested values; data is returned only when it is set, and the error without it is MissingTimestamp.")
    D["C17"] = dict(q=[e.c17], end=e.c17_end, also=e.c17_also, rule="The options are followed from the builder to the parser's fields; the header item depends on its own option; every iteration of the field loop (top level and nested) over a padding field moves the cursor the same way and appends it exactly when its option is on; the final list is the decoded list filtered exactly by class; no other path mentions an option.")
    import q_bounds as b
    D["C02"] = dict(q=[b.c02], end=b.c02_end, also=b.c02_also, rule="Every allocation amount and every loop's iteration count met on any path of a pull must be bounded, by the facts of its path, by a constant, by the message's size or by the length of something that already exists; every nested value must leave fewer bytes than it found; every call cycle passes a function whose recursive calls move an integer argument towards a constant limit.")
    import q_encode as ee
    D["C10"] = dict(q=[ee.c10], end=ee.c10_end, also=ee.c10_all, rule=ee.C10_RULE)
    def c35_end(c, i):
        ee.c10_end(c, i)
        q.c05_end(c)
    D["C35"] = dict(q=[ee.c10, q.c07, q.c05], end=c35_end, also=ee.c10_all, rule="Composition over the pulls of a log, by induction: each item's encoding, as a term, is the stretch of the stream its pull consumed (the first sixteen bytes for the header item); that stretch begins where the pull found the reader and ends at message start + 3 + size, where the next pull begins; and the end is only reported where no further message begins or the data limit is reached.")
    import q_text as t
    D["C19"] = dict(q=[t.c19], end=t.c19_end, also=t.c19_also, rule=t.C19_RULE)
    D["C20"] = dict(q=[t.c20], end=t.c20_end, also=t.c20_also, rule=t.C20_RULE)
    return D

CHECKS = {}
for k, v in next_checks().items():
    CHECKS[k] = dict(v, kind="next")

import q_static as qs
CHECKS["C21"] = dict(kind="static", run=qs.c21, rule=qs.C21_RULE, tech="effect analysis over the resolved call graph and type facts of rustc MIR")
CHECKS["C39"] = dict(kind="static", run=qs.c39, rule=qs.C39_RULE, tech="type-based order-dependence and byte-order analysis of every reachable call site in rustc MIR")
CHECKS["C23"] = dict(kind="static", run=qs.c23, rule=qs.C23_RULE, tech="auto-trait (Send/Sync) facts from the compiler's trait solver, per exported type and feature setting")
CHECKS["C24"] = dict(kind="static", run=qs.c24, rule=qs.C24_RULE, tech="unsafe-site enumeration over HIR and MIR with value provenance of pointer and length")

import q_encode as qe
CHECKS["C11"] = dict(kind="static", run=qe.c11, rule=qe.C11_RULE, tech="path-sensitive abstract interpretation of the encoder's MIR against a writer that may fail; written bytes as terms, lengths as linear facts")

import q_io as qo
CHECKS["C30"] = dict(kind="static", run=qo.c30, rule=qo.C30_RULE, tech="abstract interpretation of the buffer's MIR for every position and requested size; bytes as provenance terms, bounds as linear facts")
CHECKS["C31"] = dict(kind="static", run=qo.c31, rule=qo.C31_RULE, tech="path-sensitive abstract interpretation of the byte source's MIR against a reader that delivers, ends or fails; loop relation inference")

import q_show as qh
CHECKS["C33"] = dict(kind="static", run=qh.c33, rule=qh.C33_RULE, tech="abstract interpretation of the Display implementations' MIR into text terms per value kind; term equality between the two info renderings")
CHECKS["C36"] = dict(kind="static", run=qh.c36, rule=qh.C36_RULE, tech="abstract interpretation of the Display implementations of the messages into text terms, once per level and optional part")
import q_accept as qx
CHECKS["C38"] = dict(kind="static", run=qx.run, rule=qx.C38_RULE, tech="abstract interpretation of the pull with error paths kept apart; each error path joined with the conditions of a well-formed message and shown infeasible")
import q_access as qa
CHECKS["C37"] = dict(kind="static", run=qa.c37, rule=qa.C37_RULE, tech="abstract interpretation of every accessor on an unknown receiver; identity of the returned term with the part it names, loops one round at a time")
import q_flatten as ql
CHECKS["C32"] = dict(kind="static", run=ql.c32, rule=ql.C32_RULE, tech="abstract interpretation of splitting and flattening into sequence terms per value kind, recursive calls as an inductive step; syntactic identity of element, value and path terms")

import q_derive as qv
CHECKS["C25"] = dict(kind="static", noprog=True, run=qv.c25, rule=qv.C25_RULE, tech="abstract interpretation of the code the derive macro generates for fixture structs: every member traced to the looked-up field")
CHECKS["C26"] = dict(kind="static", noprog=True, run=qv.c26, rule=qv.C26_RULE, tech="abstract interpretation of every FromField implementation on every value kind with an unknown payload")
CHECKS["C27"] = dict(kind="static", noprog=True, run=qv.c27, rule=qv.C27_RULE, tech="abstract interpretation of the generated iterator on one kind of parser item at a time, from an arbitrary table of subscribed ids")
CHECKS["C28"] = dict(kind="static", noprog=True, run=qv.c28, rule=qv.C28_RULE, tech="abstract interpretation of every way of building a derived stream, with unknown extra names and switches: the resulting allow list and switch as terms")
import q_compile as qc
CHECKS["C29"] = dict(kind="static", noprog=True, run=qc.c29, rule=qc.RULE, tech="compile-pass and compile-fail witness programs, type-checked against the current macros")

def run(ids, tier):
    t0 = time.time()
    rc = 0
    try:
        P = dump.core_prog() if any(not CHECKS[i].get("noprog") for i in ids) else None
    except dump.AnalysisError as e:
        print("the analysis build failed:\n" + str(e))
        return 2
    nx = [i for i in ids if CHECKS[i]["kind"] == "next"]
    if nx:
        rc |= run_next(P, nx, tier, t0)
    for i in ids:
        if CHECKS[i]["kind"] != "next":
            t1 = time.time() if len(ids) > 1 else t0
            if CHECKS[i].get("noprog") and len(ids) > 1:
                # another program is analysed: a process of its own keeps the type numbers apart
                import subprocess
                sys.stdout.flush()
                rc |= subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), i] + (["--thorough"] if tier == "thorough" else [])).returncode
                continue
            rc |= CHECKS[i]["run"](P, i, tier, t1)
    return rc

def run_next(P, ids, tier, t0):
    import nextq
    pairs = roots.invariants(P)
    roots.recpost(P)
    qs = {}
    for i in ids:
        def f(n, col, i=i):
            for q in CHECKS[i]["q"]:
                q(n, col)
        qs[i] = f
    cols, stats = nextq.run(P, qs, opts={"pairs": pairs, "errkeep": True})
    rc = 0
    for i in ids:
        c = cols[i]
        if CHECKS[i].get("end"):
            CHECKS[i]["end"](c, c.data["init"][0])
        extra = {"blocks_analysed": stats["blocks"], "returns_analysed": stats["returns"], "functions_entered": stats["functions"], "partitions": stats["partitions"]}
        if CHECKS[i].get("also"):
            CHECKS[i]["also"](P, c, tier)
        rc |= ck.report(i, c, tier, t0, CHECKS[i]["rule"], extra=extra)
    return rc
