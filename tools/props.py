#!/usr/bin/env python3
"""The one place where the properties are written; regenerates properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, M = [], []
TECH = "symbolic execution of the compiled crates (LLVM IR) with Z3"


def p(id, title, statement, over, text, why, files, mech, note, technique=TECH):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0] if len(files) == 1 else ", ".join(files)} for m in mech]}})
    M.append({"property": id, "quick_cmd": "python3 tools/check.py %s --tier quick" % id,
              "thorough_cmd": "python3 tools/check.py %s --tier thorough" % id, "technique": technique, "level": "model_checking",
              "level_note": note})


p("C01", "Every log line is delivered once, whole, in order and correctly numbered",
  "For every byte stream and every way a reader delivers it in pieces, the line iterator yields exactly the non-empty lines of the stream "
  "(separated by line returns, by a literal backslash-n whose backslash is not itself escaped, and in JSON mode by , [ ] { } outside "
  "strings), each once, byte for byte, in order, with the number of the physical line it comes from, and then ends. "
  "The result depends only on the bytes, never on how reads cut them or on how many blank lines there are.",
  ["inputs", "schedules"], "every byte stream x every division of it into reads",
  "Tests feed a few well formed texts in one read; separator, escape and string state carried across a read boundary, and long runs of "
  "blank lines, are never exercised.",
  ["iterator/src/iterator.rs"], ["BytesLines::get_slice", "BytesLines::find_next_line", "BytesLines::read_slice"],
  "all streams up to 6 bytes (thorough: 8) with every chunking into pieces of 1, 2 or all bytes; plus 130000 blank lines")
p("C02", "An over-long line is dropped alone",
  "A line longer than the 6000 byte limit is discarded as a whole and nothing else is: every line before and after it is delivered intact "
  "with its right number, and no fragment of it is delivered. Lines of exactly 6000 bytes or less are kept. This holds wherever the line "
  "starts and ends relative to the reads, for several such lines in a row and at the end of the stream.",
  ["inputs", "schedules"], "every line length around the limit and the read size x every byte at the limit x every delivery",
  "The limit interacts with the chunk size, the pending escape and the end of file; tests have one over-long line per mode.",
  ["iterator/src/iterator.rs"], ["BytesLines::get_slice", "max_line_length", "chunk_size"],
  "line lengths at the limit and at the read-buffer edges with 2-3 (thorough 5) arbitrary bytes at the edge and chosen read sizes")
p("C03", "A failed read is reported once and costs no line",
  "When a read fails, the line iterator reports that error exactly once, after every line completed before it. If the caller reads on, no "
  "line is invented, repeated, lost or renumbered.",
  ["inputs", "fault_sequences"], "every stream x every position of the failing read",
  "No test injects a read failure.",
  ["iterator/src/iterator.rs"], ["BytesLines::read_slice", "BytesLines::get_slice"],
  "all streams of 4 bytes (thorough 6), both modes, failure at every position")
p("C04", "Exactly the new lines are reported, once, with the right context",
  "A target line is reported if and only if it is neither known from the baseline (distance at most 0.3) nor a repetition, up to volatile "
  "values, of a line already seen in the same group of sources. Reports come in file order with the line's own text, its physical line "
  "number, a distance above 0.3 and at most 1, and as context exactly the at most 3 adjacent lines before and after, no line being shown "
  "twice. None of this, nor the line and byte counts, depends on where the internal search boundaries (512 unique or 5120 buffered lines) fall.",
  ["inputs", "configurations"], "every sequence of known, new and repeated lines, at every offset relative to the search boundaries",
  "Lines are buffered until 512 unique ones (or 5120 in all) and contexts are stitched across these boundaries; tests process six lines.",
  ["model/src/process.rs"], ["ChunkProcessor::read_anomalies", "ChunkProcessor::do_search_anomalies", "ChunkProcessor::reset", "collect_before"],
  "all sequences of 4-5 lines (thorough 5-7) over one known and three new lines, at the start and across both search boundaries; "
  "sub-lines, two sources sharing the seen lines, arbitrary volatile digits, lines of up to 3400 bytes")
p("C05", "A read failure does not hide the anomalies before it",
  "When a source fails part way (read error, truncated data, a line that is not UTF-8), every anomaly of the lines read before the failure "
  "is still reported with its context. Then the failure is reported, exactly once; it is never swallowed.",
  ["inputs", "fault_sequences"], "every sequence of lines x every failure point, before and after a search boundary",
  "No test makes a source fail while it is processed.",
  ["model/src/process.rs"], ["ChunkProcessor::next", "ChunkProcessor::read_anomalies"],
  "all sequences of up to 4 lines (thorough 6), failure at and inside lines, three error kinds, any non-UTF-8 byte; across the 512 boundary")
p("C06", "Nothing from our own task on is ever reported",
  "When a target contains the line of our own task (\"TASK [log-classify\"), neither that line nor any line after it is reported, however "
  "many results were pending and however often the results are polled. Everything before it is reported as usual, and a line that merely "
  "resembles the marker does not stop the processing.",
  ["inputs", "histories"], "every sequence of lines, marker position and near-miss marker", "The marker is not tested.",
  ["model/src/process.rs"], ["ChunkProcessor::read_anomalies"],
  "all sequences of 4 lines (thorough 6) with the marker, or one differing in any of five bytes, at every position")
p("C07", "Every line of the baseline is known afterwards",
  "After training, each line of every baseline source, including the last partial chunk and the lines read before a source failed, has a "
  "distance near zero: processing the baseline itself reports nothing, while a line sharing no word with it is reported. Training counts "
  "every line and byte, and a failing baseline source is signalled to the caller without losing what was read.",
  ["inputs", "fault_sequences"], "every set of baseline lines, division into sources and failure, around the 512-line chunk boundary",
  "Tests train on two lines.",
  ["model/src/process.rs", "index/src/index.rs"], ["ChunkTrainer::add", "ChunkTrainer::complete", "search_mat_chunk"],
  "4 arbitrary lines over up to three sources; 510..512 fixed lines plus 2 (thorough 508..512 plus 4)")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = []
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": M, "not_applicable": NA,
           "notes": "every check rebuilds engine, harness and /repo's crates; see DESIGN.md"}, open(V + "/MANIFEST.json", "w"), indent=1)
