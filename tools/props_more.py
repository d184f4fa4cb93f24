p("C08", "Volatile values never make two lines different",
  "Tokenizing is total and a function of the line: any text gives a result, without failing and whatever the blanks around its words. No "
  "digit of a line ever survives, and two lines that differ only in the value of a date, time, number, address, identifier, hash, URL, "
  "temporary path, git ref, process id, encoded blob, request id or secret (a value keyed by id, key, ref, token, secret or password) give "
  "the same tokens, with the words around the value intact. A word of 32 or more characters, or of more than 24 base64 ones, is one value as "
  "a whole.",
  ["inputs"], "every short text over the characters that matter; for each kind of volatile value, every value of its shape",
  "Tests compare a handful of pairs of lines.", ["tokenizer/src/tokenizer.rs"],
  ["process", "do_process", "parse_literal", "remove_numbers", "is_key_for_id"],
  "50 kinds of values with up to 64 symbolic characters, also against a value of another length; day and month names and keys of secrets in "
  "any case; all words of 4 (thorough 6) characters over digits and separators; all texts of 3-4 "
  "(thorough 5) characters over quotes, separators, digits, letters and multi-byte characters")
p("C09", "Ordinary words stay distinct and error words are emphasised",
  "A word of 4 to 24 letters that is not a date, an error word, hexadecimal-like or one of the known volatile prefixes is kept verbatim, "
  "alone or attached to another by punctuation (if together they are no blob: 32 characters, or 25 with slashes only), so two lines that differ in such a word never tokenize alike. This holds wherever the word is in a line of any length. Only the lines of one word and "
  "the known noise (GET / requests, yum mirrors, ovs-ofctl dumps, ip or ebtables -L listings, chrony and memcached traces, ++ echo of one word, key randomart) are dropped as a whole; a line that only resembles them is not. An error word (error, fatal, failure, "
  "failed, warning, denied, assert, non-zero, exception, traceback and their short forms), in any letter case, quoted or attached, is kept "
  "and repeated so that it weighs five times.",
  ["inputs"], "every word of 4 to 24 letters in every position; every letter case and punctuation of every error word",
  "Tests check that some lines collapse and a few outputs; over-masking, which hides anomalies, is invisible to them.",
  ["tokenizer/src/tokenizer.rs"], ["do_process", "parse_literal", "is_error", "push_error"],
  "all words of 4, 5, 8, 13, 22, 24, 27 letters in 11 positions (thorough: also 7 and 18); 14 error words with any case of up to 4 letters")
p("C10", "The distance is the cosine to the closest baseline line",
  "The distance of a target is one minus the cosine similarity of its set of words with that of the closest baseline line: 0 exactly when "
  "some baseline line has the same words, 1 when none shares a word, never outside. It does not depend on word order or repetition, on the "
  "other targets, on how the baseline is divided in chunks or on saving and loading the index, and every target gets its own distance, in order.",
  ["inputs", "configurations"], "every choice of equal and different words in the lines, every division of the baseline",
  "Tests compute two distances.", ["index/src/index.rs"],
  ["index_mat", "search_mat", "search_mat_chunk", "vectorize", "create_mat", "save_mat"],
  "2-3 baseline lines and 1-2 targets of 1-3 (thorough 4) words over 5; hash collisions excluded")
p("C11", "Crawling a web directory finds every file once, whatever the schedule",
  "Listing or walking an http index of directories yields the url of every file below the given directory exactly once, however many workers "
  "run and however their steps interleave, and always ends. It never requests or lists anything outside that directory (parent, absolute or "
  "foreign links), nor /etc/, sort links or generated index pages. A page that fails (connection, cut body, http error) is reported as an "
  "error, its text is never taken for an index, and it affects neither the other pages nor a later listing by the same crawler.",
  ["inputs", "schedules", "fault_sequences"], "every small tree of links x every schedule of the workers x every failing page",
  "Tests crawl one page against one server and sample one schedule.", ["httpdir/src/httpdir.rs"],
  ["Crawler::walk", "Crawler::list", "Crawler::process", "http_list", "parse_index_of"],
  "trees of up to 2 entries by directory and depth 3 (thorough 3 entries), schedules within 7-8 choices, two failing pages; every name of "
  "1 and 3 characters starting with a letter or digit")
p("C12", "Rotated, compressed and numbered logs share a baseline; non-logs are ignored",
  "Every path has a group name, computed from its last directory and file name only, so that a log, its rotated and compressed copies and "
  "the same log under another number or build hash have the same name, while logs that differ in an ordinary word of either do not. "
  "Exactly the files with a known non-log extension or location (also compressed), or below /etc/, are ignored as sources.",
  ["inputs"], "every path of the stated shapes", "Tests check about ten paths.", ["model/src/model.rs"],
  ["IndexName::from_source", "IndexName::from_path", "Source::is_valid"],
  "12 suffixes, 4 letter names, 7 character hashes, arbitrary digits, every text of 4 characters; each of 30 ignored endings with any one "
  "character changed")
p("C13", "The sources of a directory are its log files, each once, read whole",
  "The sources of a local or remote directory are exactly its log files at any depth, each once, in one group and with its name relative to "
  "the directory, whatever the names (also not UTF-8). A file is read whole, also when it is empty or compressed in several parts, and decompressed when its name ends in .gz. A directory that "
  "can't be listed, a file that can't be read or a truncated compressed file is an error, never a shorter content, and does not prevent a later success.",
  ["inputs", "fault_sequences"], "every small directory tree over the kinds of entries, every content, every truncation and failing operation",
  "Tests list one directory without faults.", ["model/src/files.rs", "model/src/urls.rs", "model/src/reader.rs", "model/src/model.rs"],
  ["Source::dir_iter", "Source::httpdir_iter", "Source::file_open", "Content::get_sources", "Content::group_sources", "DecompressReader"],
  "2 (thorough 3) entries of 9 kinds, 3 remote entries of 5 kinds; 3 arbitrary bytes; every truncation of one compressed file")
p("C14", "A report accounts for every source of the target",
  "Each source of the target is in exactly one situation: it has no baseline and is listed as such, or it is compared with the baseline of "
  "its own group; then its anomalies are under its own name, number and context, and it is listed as a read error exactly when it could not "
  "be opened or read to the end. One bad source never hides another one, totals are the sums over the sources, every line of every source "
  "of every baseline is known, and a line repeated within a group is reported once but again in another group.",
  ["inputs", "configurations", "fault_sequences"], "every combination of groups, contents and failures of the sources",
  "Tests make one report of one source.", ["model/src/model.rs", "model/src/process.rs"],
  ["Model::train", "Model::report", "Index::get_processor", "Index::train", "LogReport"],
  "2 (thorough 3) sources over 3 groups and 6 situations, 1-2 baselines, 4 arbitrary letters in each line; 20 (thorough 40) groups, 30 (40) anomalies, lines of 3900 (5900) bytes")
p("C15", "A saved model or report is loaded back identical or refused",
  "Loading a saved report gives the same report, and loading a saved model gives one that reports exactly the same on any target. When any "
  "write of a save fails, the save fails, and loading a file that is missing, foreign or cut at any point is an error or still gives the "
  "original, never something else.",
  ["inputs", "crash_points", "fault_sequences"], "every content of the fields, every failing or short write, every truncation",
  "Tests do not fail writes nor cut files.", ["model/src/model.rs"], ["Model::save", "Model::load", "Report::save", "Report::load"],
  "texts of 3 arbitrary characters, arbitrary dates and counts, lines of 4 arbitrary letters; models of up to 62 groups and 9301 lines; each write failing in two ways; cuts at the "
  "last 128 bytes and every 128 bytes (compression itself is stubbed)")
p("C16", "The cache only ever serves what the server sent, in full",
  "Content read through the cache is what the server sent, and an entry exists only once it was entirely downloaded: after a lost connection, "
  "a reader that stops, a kill or a full disk at any point, the next access downloads again and works. An http error page or a cut body is an "
  "error, never content; listings and availability are served for exactly the url they were stored for, and nothing is downloaded twice once cached.",
  ["inputs", "crash_points", "fault_sequences"], "every content, delivery, kill point and failing disk operation",
  "Tests store and read back one entry.", ["cache/src/cache.rs", "model/src/reader.rs"],
  ["Cache::remote_add", "Cache::remote_get", "CacheReader::read", "Cache::httpdir_add", "Cache::head", "get_url"],
  "1 (thorough 3) arbitrary bytes, pieces of 1 or 4, failure at any byte, kill after 0-2 reads, full disk at any of 5 operations")
p("C17", "Inputs resolve to the right content and are never misread",
  "A text is a url exactly when it starts with http:// or https://, otherwise a path; an invalid url or a missing path is an error, never a "
  "crash. A url is a Zuul build exactly when its path ends in /build/ and a 32 character alphanumeric id, and that build is requested once, from the "
  "api of its own web root and tenant; otherwise it is a directory when it ends in a slash and a file when not. A build whose api answer is "
  "unavailable, cut, invalid or lacks its logs, ref or change is an error.",
  ["inputs", "fault_sequences"], "every input of the stated shapes, every missing field",
  "Tests resolve two build urls.", ["model/src/zuul.rs", "model/src/model.rs", "model/src/urls.rs", "zuul/src/zuul-build.rs"],
  ["Input::from_string", "Content::from_input", "Content::from_url", "Content::from_zuul_url", "get_zuul_api_url"],
  "4 arbitrary characters over the url syntax, 5 layouts of web roots, any character in the id, 9 kinds of answers")
p("C18", "The baseline of a build is the best available successful build",
  "The baseline discovered for a build is, among the successful builds of the same job the api gives (at least the 500 latest are asked for) that have logs, a ref and a change, are not the build "
  "itself and whose logs are still available, the one with the best score; of equals, the first. The score is the sum of: same project and "
  "another change +50, same project and same change -500, same branch +50, gate or periodic pipeline +50, voting +10, minus its age in days (never negative). If no "
  "build qualifies there is an error, and an incomplete build in the answer never prevents the discovery.",
  ["inputs", "fault_sequences"], "every pair of candidate builds over the kinds, every date",
  "Baseline discovery is not tested.", ["model/src/zuul.rs", "zuul/src/zuul-build.rs"],
  ["Build::discover_baselines", "Build::baseline_score", "Build::logs_available", "decode_builds"],
  "2 (thorough 3) candidates of 13 kinds; any day of two months, also in the future")
p("C19", "The HTML report shows every line as it is, and log text never becomes markup",
  "The rendered page shows, for each reported source in order, its name, link and number of anomalies, and each anomaly with its own number "
  "and text between its context lines, numbered consecutively, with a separator exactly where lines are missing. Every text from the logs, "
  "paths, urls and names is shown character for character and never changes the structure of the page, whatever it contains. Rendering "
  "never fails, also when the parts of one physical line are each other's context.",
  ["inputs"], "every text over the characters that matter to html in every place of the page; every layout of contexts",
  "Rendering is not tested.", ["report/src/report.rs"], ["render", "render_lines", "render_context", "render_content_report", "table"],
  "2 (thorough 3) arbitrary characters over <>&\"'a;#/ and known markup in each of 8 places; 2 (thorough 3) anomalies with every context "
  "and any gap up to 120 lines")
p("C20", "The command line shows the whole analysis, or fails",
  "Comparing a target prints, source by source, each anomaly with its own number and text and its context lines with theirs, a separator "
  "exactly where lines are missing (a line repeated in another source is printed there too), one message for each source without a baseline or that can't be read, and nothing else; one bad "
  "source hides no other. A saved model gives the same output without its baselines and is never overwritten, all given baselines and only "
  "they are used, and an html report holds the anomalies. A missing or unusable input, model or output file makes the command fail.",
  ["inputs", "configurations", "fault_sequences"], "every sequence of lines, situation of the sources and command of the stated shapes",
  "The command line is not tested.", ["cli/src/main.rs"], ["Cli::run", "process", "process_live"],
  "2 (thorough 3) sources in 6 situations; all sequences of 6 (thorough 9) lines, any two new lines among 11; 4 parts of one physical line; "
  "commands diff, path, train with --model and --report")
p("C21", "The evaluation of datasets tells the truth",
  "The test command succeeds exactly when, for every given dataset directory, the anomalies of its .fail file compared with its .good file "
  "are as many as inf.yaml lists and each contains the listed text (blanks around it aside), in order. A directory that is missing or lacks "
  "one of the three files, a file that can't be read to its end or an invalid inf.yaml makes the command fail.",
  ["inputs", "fault_sequences"], "every sequence of known and new lines with every list of expected ones; every missing, unreadable or invalid file",
  "No test runs the command; it is the oracle of the project's own quality measurements.", ["cli/src/dataset.rs", "cli/src/main.rs"],
  ["test_datasets", "process", "load_inf", "assert_anomaly_includes"],
  "1 or 2 datasets of up to 2 (thorough 3) lines with symbolic words and up to 2 (3) expected anomalies of 3 texts each; one of 720 lines and 40 anomalies")
p("C22", "The same logs give the same report wherever they are read from",
  "A target and its baselines give the same report, anomaly by anomaly, with the same names, index names, counts, sources without a baseline "
  "and sources that can't be read, whether they are local directories or files, remote ones, or the logs of a Zuul build and of the baseline "
  "its api gives; with the cache or without it, and again when everything is served from the cache while the server is down.",
  ["inputs", "configurations", "fault_sequences"], "every mix of places, states and contents of the sources",
  "The tests read no remote logs.", ["model/src/model.rs", "model/src/urls.rs", "model/src/files.rs", "model/src/reader.rs", "model/src/zuul.rs"],
  ["Content::from_input", "Content::discover_baselines", "Model::train", "Model::report", "Source::httpdir_iter", "Source::dir_iter"],
  "2 (thorough 3) target sources among 8 names, one of them unreadable or cut, up to 3 lines each with arbitrary words; compressed logs are "
  "served with their content encoding")
