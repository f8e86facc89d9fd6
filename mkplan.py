#!/usr/bin/env python3
"""Write plan.json (what each check runs) and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    "Kani 0.68.0's translation of Rust to goto programs, CBMC 6.11.0, CaDiCaL",
    "the std that Kani compiles against",
    "stand-ins for three std functions (harness/src/stubs.rs): TypeId::of, TypeId::eq, fmt::Arguments::as_str",
    "-Z restrict-vtable: dynamic calls reach only the implementations present for that trait method",
]
ASSUMPTIONS = [
    "results are for a 64-bit target",
    "destructors of the values under test are not run except where a harness is about releasing them",
]

# (features, [harness name parts], options)
P = {}


def prop(pid, level, note, groups, **kw):
    P[pid] = dict(level=level, note=note, groups=[dict(features=f, harnesses=h, **(o[0] if o else {})) for f, h, *o in groups], **kw)


TH = {"tiers": ["thorough"]}
FULL = "Every captured value of every type is symbolic over its full domain and no loop is cut short."

prop("P01", "proof", FULL, [
    ("", ["p01"]), ("inline-i128", ["p01"]), ("owned", ["p01::kinds"]), ("std,seq,sval2,serde1,inline-i128", ["p01::kinds"])])
prop("P02", "proof", FULL, [
    ("", ["p02"]), ("inline-i128", ["p02"]), ("owned", ["p02::kinds"])])
prop("P03", "proof", FULL + " Text is arbitrary bytes at fixed lengths (bounded).", [
    ("", ["p03"]), ("alloc", ["p03"]), ("inline-i128", ["p03::reads"]), ("owned", ["p03"])],
    bounded=["text", "str"], bounds="text lengths 0, 1, 4, 5, 22, 23, 90")
prop("P04", "proof", FULL + " Text is arbitrary bytes at fixed lengths (bounded).", [
    ("", ["p04"]), ("owned", ["p04::text", "p04::string", "p04::owned"]), ("alloc,inline-i128", ["p04::u128", "p04::i128"]),
    ("owned,inline-i128", ["p04::owned::wide"])],
    bounded=["text", "str"], bounds="text length 4")
prop("P05", "proof", FULL + " Text is arbitrary bytes at fixed lengths (bounded).", [
    ("", ["p05"]), ("alloc,inline-i128", ["p05"])],
    bounded=["str"], bounds="text lengths 0, 4, 5")

TEXT = " Text is arbitrary bytes at fixed lengths (bounded)."
prop("P06", "proof", FULL + TEXT + " Captured objects stand for any object: the code handles them only through their traits.", [
    ("", ["p06"]), ("error", ["p06::error"]), ("sval2,error", ["p06::sval"]), ("serde1", ["p06::serde"]),
    ("owned", ["p06"]), ("owned,error", ["p06::shared"]), ("owned,sval2", ["p06::shared"], TH), ("owned,serde1", ["p06::shared"], TH)],
    bounded=["str"], bounds="text length 5")
prop("P07", "proof", FULL + TEXT, [
    ("", ["p07"]), ("inline-i128", ["p07"]), ("error", ["p07::error"]), ("seq,alloc", ["p07::seq"]),
    ("owned", ["p07::shared"]), ("sval2", ["p07::refused"]), ("serde1", ["p07::refused"]),
    ("sval2", ["p07::specific"], TH), ("serde1", ["p07::specific"], TH)],
    bounded=["str", "seq"], bounds="text lengths 0 and 5")
prop("P08", "proof", FULL + TEXT + " Re-borrowing is shown for one and two levels; a re-borrowed value is again a value, so deeper levels follow by induction.", [
    ("", ["p08"]), ("inline-i128", ["p08"]), ("error", ["p08::error"]), ("seq,alloc", ["p08::seq"]), ("owned", ["p08::shared"]),
    ("sval2", ["p08::sval"]), ("serde1", ["p08::serde"])],
    bounded=["str", "seq", "formatted"], bounds="text lengths 0, 3, 4 and 5")
prop("P09", "proof", FULL + TEXT, [
    ("", ["p09"]), ("inline-i128", ["p09"]), ("error", ["p09::error"]), ("seq,alloc", ["p09::seq"]), ("owned", ["p09::owned"]),
    ("sval2,error,std", ["p09::sval"]), ("serde1", ["p09::serde"])],
    bounded=["str", "seq", "formatted"], bounds="text lengths 0, 3, 4 and 5")
prop("P10", "proof", FULL + " Text is arbitrary bytes at fixed lengths on either side of each storage limit (bounded).", [
    ("owned", ["p10"]), ("owned,inline-str", ["p10::text", "p10::copy", "p10::formatted"]),
    ("owned,inline-str-l,inline-i128", ["p10::copy", "p10::cloned", "p10::again", "p10::viewed", "p10::text"])],
    bounded=["str", "text", "formatted"], bounds="text lengths 0, 1, 2, 5, 21-24, 45-47, 64, 90")
prop("P11", "proof", FULL + TEXT, [
    ("owned", ["p11"]), ("owned,inline-str", ["p11::formatted", "p11::text"]), ("owned,error", ["p11::error", "p11::captured"]),
    ("owned,sval2", ["p11::sval"]), ("owned,serde1", ["p11::serde"]), ("owned,seq", ["p11::seq"])],
    bounded=["str", "text", "formatted", "seq"], bounds="text lengths 0, 5 and on either side of the storage limits")
prop("P12", "model_checking", "Bounded: texts of fixed total length, written in one to three pieces of fixed lengths on either side of each storage limit; the bytes are arbitrary and one arbitrary position is compared.", [
    ("owned", ["p12"], TH), ("owned,inline-str", ["p12"]), ("owned,inline-str-l", ["p12::displayed"])],
    bounded=["."], bounds="one to three pieces, total length up to 90")

prop("P13", "proof", FULL + TEXT + " Formatting through the types of std is recorded at the call, so the width, precision, alignment, fill and flags that reach it are those given; the format strings used are a fixed list.", [
    ("", ["p13"]), ("owned", ["p13::owned", "p13::shared"]), ("error,owned", ["p13::error"]), ("seq,alloc", ["p13::seq"])],
    bounded=["str", "seq"], bounds="text lengths 0 and 5, a fixed list of format strings", assumptions=[
        "for P13, Debug::fmt and Display::fmt of u64, i64, u128, i128, f64, bool, char and str are replaced by functions that record the value and the options they are called with"])
prop("P14", "model_checking", "Bounded: sequences of up to three elements of fixed kinds, with arbitrary values for the elements; each read of a sequence is compared with the same read of each element.", [
    ("seq,alloc", ["p14"]), ("seq,owned", ["p14::owned", "p14::shared"]), ("seq,sval2", ["p14::sval"]),
    ("seq,serde1", ["p14::serde::empty", "p14::serde::one", "p14::serde::map", "p14::serde::seq_then_u64"]),
    ("seq,serde1", ["p14::serde"], TH)],
    bounded=["."], bounds="at most three elements; text lengths 0, 2 and 5")
prop("P15", "proof", FULL + TEXT + " Structured values are one fixed shape of each kind (bounded).", [
    ("sval2", ["p15"]), ("sval2,error", ["p15::error"]), ("sval2,seq", ["p15::seq"]), ("sval2,owned", ["p15::owned", "p15::shared"]),
    ("sval2,serde1", ["p15::serde"]), ("sval2,seq,owned", ["p15::seq::shared"])],
    bounded=["str", "opaque", "debug", "display", "error", "seq", "map", "tagged", "fail_midway"],
    bounds="text lengths 0, 3, 4 and 5; sequences of up to two elements, one level of nesting")
prop("P16", "proof", FULL + TEXT + " Structured values are one fixed shape of each kind (bounded).", [
    ("serde1", ["p16"]), ("serde1,error", ["p16::error"]), ("serde1,seq", ["p16::seq"]), ("serde1,owned", ["p16::owned", "p16::shared"]),
    ("sval2,serde1", ["p16::sval"]), ("serde1,seq,owned", ["p16::seq::shared"])],
    bounded=["str", "opaque", "debug", "display", "error", "seq", "tuple", "map", "formatted", "fail_midway"],
    bounds="text lengths 0, 3, 4 and 5; sequences of up to two elements, one level of nesting", assumptions=[
        "for P16, values captured through sval: sval_serde::serialize is replaced by a function that makes the serializer call for what the value streams (Kani can't compile the original)"])
prop("P17", "proof", FULL + TEXT + " Structured values are one fixed shape of each kind (bounded).", [
    ("sval2", ["p17::sval"]), ("serde1", ["p17::serde"]), ("sval2,alloc", ["p17::sval::text"]),
    ("sval2,owned", ["p17::sval::shared"], TH), ("serde1,owned", ["p17::serde::shared"], TH)],
    bounded=["str", "text", "seq", "map", "fail_midway"], bounds="text lengths 0 and 5, text in up to two pieces; one fixed shape of sequence and map")
prop("P18", "model_checking", "Bounded: the errors used stand for any error: the code handles them only through the Error trait. Chains have at most three causes and texts have fixed lengths (bounded).", [
    ("error", ["p18"]), ("error,owned", ["p18"])],
    bounded=["."], bounds="chains of at most three errors; text lengths 3, 4 and 5")
prop("P19", "proof", "Each way of failing is one fixed object: failing at once, after part of a value, and after a complete value." + TEXT, [
    ("", ["p19"]), ("error,owned", ["p19::formatting"]), ("owned,inline-str", ["p19::formatting"]),
    ("sval2,owned", ["p19::sval", "p19::formatting::sval"]), ("serde1,owned", ["p19::serde"])],
    bounded=["midway", "owned"], bounds="text lengths up to 5", assumptions=[
        "for P19, owned copies of values that fail to stream or serialize: the functions that would read a successful copy (sval_buffer's stream_all, erased_serde::serialize) are replaced by ones that always fail the proof, so reaching them is an alarm"])
prop("P20", "proof", "The small-text buffer is shown for every length up to its capacity, written in one or two pieces cut anywhere, and every capturable type with an arbitrary value. Sequences have at most four elements, and owned formatted text has fixed lengths on either side of each capacity (bounded).", [
    ("seq", ["p20"]), ("owned,inline-str", ["p20::buffer"], {"guard": True, "optional_guard": True}),
    ("owned,inline-str", ["p12::displayed::one"]), ("owned,inline-str-l", ["p20::buffer"], {"guard": True, "optional_guard": True, "tiers": ["thorough"]}),
    ("owned", ["p04::owned"], TH)],
    bounded=["p12", "seq", "str"], bounds="sequences of up to four elements; owned formatted text of lengths 1, 22, 23, 46, 47, 64, 65")
prop("P21", "proof", FULL + TEXT + " Captured objects are one fixed object of each kind.", [
    ("test", ["p21::direct", "p21::filled", "p21::converted", "p21::formatted"]),
    ("test,error,owned", ["p21::error", "p21::shared", "p21::owned"]), ("test,sval2,owned", ["p21::sval", "p21::shared::sval"]),
    ("test,serde1,owned", ["p21::serde", "p21::shared::serde"]), ("test,seq,owned", ["p21::seq", "p21::shared::seq"])],
    bounded=["str", "formatted", "seq"], bounds="text lengths 0, 3, 4 and 5")


def main():
    json.dump({"trusted_base": TRUSTED, "assumptions": ASSUMPTIONS, "properties": {k: {a: b for a, b in v.items() if a != "note"} for k, v in P.items()}},
              open(os.path.join(HERE, "plan.json"), "w"), indent=1)
    na = json.load(open(os.path.join(HERE, "not-applicable.json"))) if os.path.exists(os.path.join(HERE, "not-applicable.json")) else []
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    done = {n["property"] for n in na}
    na = na + [{"property": i, "reason": "no check yet"} for i in ids if i not in P and i not in done]
    json.dump({
        "version": 1,
        "setup_cmd": "true",
        "hooks": {"guard": "--cfg value_bag_verif", "enable": "RUSTFLAGS=\"--cfg value_bag_verif\"",
                  "source_commits": json.load(open(os.path.join(HERE, "hook-commits.json")))},
        "checks": [{
            "property": k,
            "quick_cmd": "python3 check.py %s --tier quick" % k,
            "thorough_cmd": "python3 check.py %s --tier thorough" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": "Kani function contracts and Hoare triples over the real crate",
            "level": v["level"],
            "level_note": v["note"],
        } for k, v in P.items()],
        "not_applicable": na,
        "notes": "Known findings are in known-findings.json. plan.json and this file are written by mkplan.py.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
