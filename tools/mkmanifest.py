#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Hook"], capture_output=True, text=True).stdout.split()
T = {}
def t(id, technique, note, level="exploration"):
    T[id] = (technique, note, level)
NOTE = " Trusted: the harness's own generators, encoders and oracles; overflow checks and debug assertions are on."
t("P01", "round-trip monitor: objects written are compared with objects read back", "Random and hostile objects over all kinds and representations; every difference in any field is a violation." + NOTE)
t("P02", "round-trip monitor through the OSC writer and reader", "As P01, closed and dropped writers." + NOTE)
t("P03", "output monitor: an independent strict XML parser checks what the sink received", "Conformance of every document written, decided by a parser written for this purpose that refuses anything not well-formed." + NOTE)
t("P04", "differential monitor: reader output against the generator's model of the document", "Documents are laid out in every legal way the generator knows; the reader's objects are compared with the model." + NOTE)
t("P05", "differential monitor: reader output against the generator's model of the document", "As P04 for osmChange sections." + NOTE)
t("P06", "differential monitor: PBF reader output against an independent PBF encoder's model", "Files of every layout freedom the format gives; the encoder is independent of osmio and its protobuf library." + NOTE)
t("P07", "differential monitor: Arc PBF reader output against an independent PBF encoder's model", "As P06 for the Arc reader." + NOTE)
t("P08", "differential monitor: node positions against an independent PBF encoder's model", "As P06 for the position reader." + NOTE)
t("P09", "online trace checker over histories of mixed, partly consumed iterations", "Random histories checked call by call against a cursor specification." + NOTE)
t("P10", "delivery-fault injection: the same bytes under many read schedules, outputs compared", "Pieces from one byte, interrupted reads, named pipes." + NOTE)
t("P11", "fault enumeration: cut and I/O error at every byte, outcome checked by a prefix oracle", "Every cut position and every error position of each generated input; inputs are sampled." + NOTE, "fault_enumeration")
t("P12", "hostile-input stress with crash, hang, stack, memory and skipped-block monitors", "Mutated, nested, truncated, random and specially built inputs in a supervised child process." + NOTE)
t("P13", "online life-cycle automaton over random call histories of every writer", "Every call's result, is_open and the sink are compared with the automaton after every step." + NOTE)
t("P14", "fault enumeration: the sink fails at every byte and every call, output prefix checked", "Every failing position of each generated history; histories are sampled." + NOTE, "fault_enumeration")
t("P15", "exact-arithmetic oracle over coordinate conversions", "Boundary, exhaustive-window and random values checked against exact rational arithmetic." + NOTE)
t("P16", "independent calendar oracle over timestamp conversions and comparisons", "Instants over years 0000-9999 in every textual form; orders compared with instants." + NOTE)
t("P17", "online model checker: objects are compared with a field/tag-map model after every edit", "Random edit histories on every kind and representation, clones included." + NOTE)
t("P18", "consistency monitor: derived views against the plain data", "Every derived method on random objects of every kind and representation." + NOTE)
t("P19", "conversion monitor: every field before and after", "All Arc and Rc objects made by reading, building and editing." + NOTE)
t("P20", "differential monitor: changeset reader output against the generator's model of the dump", "As P04 for changeset dumps." + NOTE)
t("P21", "differential monitor: tag reader output against the generator's model and the full reader", "As P20 for the tag reader, always through a real bzip2 file." + NOTE)
t("P22", "fault enumeration: cuts and I/O errors at every byte, hostile bytes, supervised process", "Every cut and error position of each generated dump; dumps are sampled." + NOTE, "fault_enumeration")
t("P23", "differential monitor: by-name, compressed and in-memory reads compared, files fingerprinted", "bzip2 files of one and several streams; contents and file metadata of the input compared." + NOTE)
t("P24", "black-box monitor of the export tool: database contents against the model of the dump", "The real binary runs on valid, damaged and interrupted dumps; the database is read with SQLite." + NOTE)
t("P25", "black-box monitor of the tools: output, exit status against the model of the input", "The real binaries run on valid, cut and missing files." + NOTE)
t("P26", "end-to-end monitor: PBF to XML/OSC and back against the encoder's model", "Both PBF readers, both writers, documents compared byte for byte." + NOTE)
t("P27", "ThreadSanitizer, AddressSanitizer and Miri plus cross-thread consistency checkers", "Sanitizers see the executed schedules only; the standard library is instrumented too." + NOTE)
t("P28", "memory and delivery monitor: counting allocator and a source which notes what was asked for when", "Growth of more than 12 kB over several hundred elements or blocks is a violation; inputs of up to 20 MB." + NOTE)
t("P29", "consistency monitor: == against the observed fields, over objects made in different ways", "Objects of all kinds and representations by eight routes, edit histories included; pairs from a small value space." + NOTE)
t("P30", "round-trip monitor through serde_json, and hostile JSON", "Six routes through text, bytes and values; JSON is the only format tried." + NOTE)
t("P31", "law checker over all pairs and triples of sampled sets of values", "Sets of up to 9 values which are close to each other, invalid timestamps included; lists of 49 are sorted." + NOTE)
t("P32", "fault-injecting encoder with a prefix-then-failure checker", "One damage per file, of 16 kinds per form of object, each file also compared with what it says before the damage; arithmetic overflow is checked (debug build)." + NOTE)
t("P33", "fault-injecting encoder; objects compared with what is left of them", "White space around numbers, signs and other spellings which a generous reader might accept are not generated." + NOTE)
t("P34", "complexity monitor: CPU time of the thread for n and 16 n of each thing", "Sizes up to some hundred thousand elements; less than quadratic growth (n to the power of 1.5) and work which is only a little quadratic at that size are not told from linear." + NOTE)
t("P35", "monitor of string addresses and of memory in use", "Sharing between blocks, and in the owned types, is not asked for. Rc objects can be had only through the hooks." + NOTE)
t("P36", "differential monitor: the same work in processes with different surroundings, and again in the same one", "A sample of surroundings; hash keys of maps differ in every process anyway. The clock is shifted by a preloaded library." + NOTE)
t("P37", "reference-model monitor of the provided methods of foreign implementations, and of a log of the calls made on them", "One implementation of each trait, which is a thin one over the harness's model." + NOTE)
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
man = dict(version=1,
    setup_cmd="bash setup.sh",
    hooks=dict(guard="osmio_verif", enable='RUSTFLAGS="--cfg osmio_verif"', source_commits=hook),
    checks=[dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=a, level=l, level_note=n) for i, (a, n, l) in T.items() if i not in NA],
    not_applicable=[dict(property=i, reason=r) for i, r in NA.items()],
    notes="Runtime monitoring; see DESIGN.md.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
