#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLA+ specification checked with TLC; "
T = {
 "C01": (MC + "builder call histories generated from the specification and random sessions replayed on the real builder; the fonts they build validated by TLC through every accessor", "builder spec (what the told state says = what the font written from it says) checked exhaustively on small call sequences, which are also replayed; larger sessions, limits and rule shapes sampled; fonts at the limits of the format built and asked by formula (Bulk spec)"),
 "C04": (MC + "the same histories with refused calls: results, state after every call and repeated builds validated by TLC", "every call sequence to a bound generated from the spec and replayed; random sessions with invalid calls, limits at and around each bound"),
 "C20": (MC + "edition data cut, edited and damaged, loaded into the real builder; the outcome and the state it leaves validated by TLC", "edition data read and written by the spec; all cuts of sampled streams, edits and random damage sampled"),
 "C21": (MC + "histories of several users performed concurrently (race detector on) and in every order of turns generated from the specification, over shared and separate fonts; each user's history validated by TLC as if it were alone", "isolation spec checked over all interleavings of a small instance; real histories of builders, parsers, caches, lookups, encoders sampled; goroutine schedules are the scheduler's"),
 "C22": (MC + "texts drawn by chaining the real testers, lookups, caches and metrics, generated from the specification and random, each validated by TLC against the composition of the specified rewriting, mapping and tables", "chain of streaming machines with remembered decisions = composed function checked exhaustively for small texts, rule catalogs and histories, which are also replayed; larger random fonts (written directly, or built and parsed), texts and histories of setting changes sampled"),
 "C02": (MC + "fonts exported, parsed and re-exported by the real code under many readers, every accessor's answer validated by TLC", "format spec: view(write(v)) = v and re-writing checked exhaustively on the fonts of a bounded model, which are also replayed; larger random fonts sampled; huge fonts by formula (Bulk spec)"),
 "C03": (MC + "the real parser's verdict on cut, extended, edited and damaged streams validated by TLC against the specified section walk", "format spec checked exhaustively on a bounded model (every proper prefix rejected, writer output accepted); all cuts and all single-byte positions of the sampled fonts, section bounds, size limit and gzip damage validated; cuts and edits of huge fonts (Bulk spec)"),
 "C05": (MC + "random mapping tables looked up in the real fonts, recorded results validated against the specification by TLC", "Mapping spec checked exhaustively on small tables (staircase walk = reference); all recorded lookups must be behaviours of the spec; fonts, code points and setting values are sampled; up to 56789 code points by formula (Bulk spec)"),
 "C06": (MC + "recorded lookup/drop/reset histories of the real cache validated by TLC", "cache spec checked exhaustively for small capacities; real histories (cached against uncached, eviction order observed through the entries) validated, sampled; large caches by formula (Bulk spec)"),
 "C07": (MC + "recorded histories of settings writes and cached evaluations validated by TLC", "settings cache spec checked exhaustively on a small instance; real histories sampled"),
 "C08": (MC + "real condition evaluations over all setting values validated by TLC against the formula semantics", "encoding/evaluation spec checked exhaustively for small formulas; formulas generated from the spec plus random larger ones, all assignments for small value spaces"),
 "C09": (MC + "behaviours generated from the specification replayed on the real tester, and recorded histories validated by TLC against the reference scan", "streaming machine = reference checked exhaustively on a bounded catalog of rules; generated behaviours replayed; random rule sets and inputs validated"),
 "C10": (MC + "behaviours generated from the specification replayed on the real tester, and recorded histories validated by TLC against the reference scan", "as C09, for code points"),
 "C11": (MC + "recorded histories of rule edits, setting changes and sequences validated by TLC", "tester state machine checked exhaustively on a small instance; real histories sampled"),
 "C12": (MC + "recorded histories of legal and illegal calls validated by TLC, all call triples enumerated", "tester state machine checked exhaustively on a small instance; all triples of calls, damaged rules and random illegal histories validated"),
 "C13": (MC + "testers used concurrently (race detector on) and interleaved, each recorded history validated by TLC against the single-tester specification", "compiler pool spec checked over all interleavings of a small instance, its behaviours replayed on the real pool; schedules of the real testers are sampled"),
 "C14": (MC + "real encoder output interpreted by the specified raster machine in TLC and compared pixel by pixel", "raster machine of the spec executes the real encoder's operations; all masks of small boxes (by tier) plus random, large and offset masks"),
 "C15": (MC + "operation streams generated from the specification and recorded rasterizations validated by TLC", "every operation sequence up to a bound generated from the spec plus random streams and all their truncations"),
 "C23": (MC + "random sessions of questions to real fonts, within and beyond what they define, each session validated by TLC against the specification", "sessions of bounded length enumerated over small fonts; on the real code keys around the end of every table, at powers of two and at the largest value, for random fonts and for fonts with 254 and 255 of everything"),
 "C16": (MC + "random name and kerning tables looked up in the real fonts, recorded results validated by TLC", "binary search spec = table semantics checked exhaustively for small tables; tables and queries (all neighbours of stored keys) sampled; huge name and kerning tables by formula (Bulk spec)"),
 "C17": (MC + "operation sequences generated from the specification replayed on the real ring, results validated by TLC", "refinement ring => queue checked exhaustively for small capacities; generated behaviours and random histories on the real code"),
 "C18": (MC + "sets and rules of parsed fonts iterated by the real code, stopping at every callback, validated by TLC", "format spec checked exhaustively on a bounded model; sets and rules sampled, all stop positions of small sets; up to 65535 rules by formula (Bulk spec)"),
 "C19": (MC + "real date validity for the whole value space validated against the specified calendar by TLC", "calendar spec compared on every (year, month, day) class of the tier; header round trips sampled"),
}
NOT = {}
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=[], not_applicable=[])
for p, (t, n) in sorted(T.items()):
    m["checks"].append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                            technique=t, level="model_checking", level_note=n))
for p, why in sorted(NOT.items()):
    if p not in T:
        m["not_applicable"].append(dict(property=p, reason=why))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
