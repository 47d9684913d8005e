#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

PP="src/pretty_print.rs"; CN="src/consolidated_notation.rs"; DP="src/pane/display_pane.rs"; DV="src/pane/divvy.rs"
TR="src/doc_examples/tree.rs"; NO="src/notation.rs"; VN="src/valid_notation.rs"; GE="src/geometry.rs"; PD="src/pretty_doc.rs"

prop("C01","Lines do not depend on focus or on how they are pulled",
 "A document has one layout at a given width, the one its notations prescribe, and every line a print delivers is exactly that layout's line at that distance above or below the focus line, whatever focus the print was opened at and in whatever order, amount and interleaving its upward and downward lines are pulled, abandoned and re-opened. Each direction ends exactly at the document's first or last line, and stays ended when asked again. Printing to a single string yields the same lines joined by newlines.",
 ["schedules","histories","inputs"],
 "all documents, notations and widths; all focus positions; all interleavings of pulls from the two line streams of any number of open prints, including abandoning a print at any point and re-opening it elsewhere",
 "The tests drain both directions completely, one print at a time, downward after upward, for a few documents; partial, interleaved and re-opened consumption (the way an editor uses the library) is never exercised, nor are notations with children, folds, checks, styles and wide characters compared at every focus against an independent layout.",
 [PP,CN,NO,"src/oracle.rs"],
 [("lazy resolution of the block stacks on both sides of the focus",PP+": print_next_line, print_prev_line, expand_focusing_first_block, expand_focusing_last_block"),("choice resolution against the unresolved rest of the line",PP+": choose, fits"),("notation resolution",CN+": DelayedConsolidatedNotation::eval")],
 ["pretty_print()","iterators returned by pretty_print()","pretty_print_to_string()"],
 [("prev_blocks / next_blocks","partly resolved lines above and below the focus",PP+": Printer"),("segments / chunks","resolved and unresolved part of one line",PP+": Block")])

prop("C02","A print opens exactly at the requested focus, or fails saying why",
 "Opening a print at a node path with a target splits the focused line exactly just before that node, just after it, at the first focus mark of that node's own notation, or before the n-th character of that node's own text (at the end of the text when n is too large). If the path is not displayed in the layout, or that node's own notation shows no focus mark or no text, opening fails with the error for that cause instead of landing somewhere else. This holds after any history of earlier focus moves, width changes, document edits, and attempts that failed and were retried.",
 ["histories","inputs","fault_sequences"],
 "all documents, widths, paths and targets, at every point of an editing session: any sequence of focus moves, width changes, edits between prints and failed-then-retried opens",
 "Tests check a handful of paths on JSON documents; mark and text targets are checked on single documents, never on nodes lacking them or with neighbours having them, nor inside folds, choices, flat regions, or after failures.",
 [PP,CN],
 [("descending to a child",PP+": seek_child"),("stopping before / after / at mark / in text",PP+": seek_start, seek_end, seek_mark, seek_text"),("text split",CN+": Textual::split_at")],
 ["FocusedLine left/right segments","PrintingError::{InvalidPath, MissingFocusMark, MissingText}"],
 [("id of a chunk","which document node a pending piece of notation belongs to",PP+": Chunk")])

prop("C03","Every piece of text carries exactly its enclosing styles, everywhere",
 "Every delivered piece of text, including indentation, carries exactly the combination, from outermost to innermost, of the root style, the style of each enclosing node and each enclosing style label as resolved by the node whose notation uses it; indentation carries the styles in force where the indentation was declared plus its own label. The reported width of a piece of text is the number of columns it occupies. Both are the same at every focus, in both directions, on both sides of the split, and when a print is retried after a failed style lookup.",
 ["schedules","inputs","fault_sequences"],
 "all documents, style assignments and root styles; all focus positions and pull orders; style lookups failing and being retried at any point",
 "One test prints one styled JSON document downward with a commutative style; ordering of combination, indentation styles, root style, the upward direction and the two sides of a split are never observed.",
 [CN,PP,"src/pretty_doc.rs"],
 [("style threading",CN+": DelayedConsolidatedNotation::eval (Style, Indent, Child, Right), with_optional_style"),("indentation segments",PP+": Block::new")],
 ["Segment.style","Segment.width"])

prop("C04","Concurrent, nested and abandoned prints never influence each other",
 "Any number of prints and pane displays, of the same or different documents, open at once on one thread or on several, nested inside one another's document callbacks, abandoned half way or torn down by a panic in a document callback, each deliver exactly what they would deliver alone. Nothing a print did earlier, including for another document that uses the same node identifiers or for an older version of the same document, changes what a later print delivers.",
 ["schedules","crash_points","histories"],
 "all interleavings of several sessions at document-access granularity, over one or several threads, with re-entrant prints inside callbacks, cancellation and callback panics at arbitrary accesses",
 "No test has more than one print open, uses threads, re-enters the printer from a callback, or lets a callback panic; hidden shared state (a cache, a scratch buffer) would pass every one of them.",
 [PP,CN,DP],
 [("all state owned by one print",PP+": Printer, UpwardPrinter, DownwardPrinter"),("per-print indentation sharing",CN+": IndentNode")],
 ["results of interleaved sessions versus the same sessions alone"])

prop("C05","A document error surfaces at once, as itself, and is never swallowed",
 "If any access to the document fails while a print is being opened, a line is being pulled or a string is being printed, that very operation reports exactly that error; it never reports success, another error, a partial line, a partial string, or panics. Every line delivered before the failure is exactly the line a failure-free print delivers.",
 ["fault_sequences","schedules","inputs"],
 "every document access of every operation as the failing one, for all documents, focus targets and pull orders",
 "Every document in the tests is infallible, so no error path out of a document access is executed by any test.",
 [PP,CN],
 [("error propagation",CN+": DelayedConsolidatedNotation::eval"),("error propagation through layout decisions",PP+": choose, fits, Chunk::new, seek*, print_*_line")],
 ["Result of pretty_print(), of iterator items, of pretty_print_to_string()"])

prop("C06","After a document error the remaining output is true, ordered and recoverable",
 "After an operation on one line stream has failed, whatever that stream still delivers consists only of true lines of the document, each beyond the ones already accounted for, in order and without repetition; it may skip lines or end, but never delivers a corrupted, truncated or merged line. The opposite stream and every other open print are unaffected. Once the document answers again, a fresh print delivers the complete failure-free result.",
 ["fault_sequences","schedules"],
 "all sequences of transient, repeated and permanent-until-healed access failures, over all interleavings of pulls on several open prints",
 "No test pulls from a stream after an error, or from the other stream, or retries.",
 [PP,CN],
 [("lines are detached from the pending stacks before being resolved",PP+": print_next_line, print_prev_line"),("pending text is split only at line breaks",PP+": expand_focusing_first_block, expand_focusing_last_block")],
 ["iterator items after an Err item","a fresh pretty_print()"])

prop("C07","The printer only asks the document what it is allowed to ask",
 "Under every consumption order and after every failure, the printer asks for a node's text only if the node holds text, for a child, last child or previous sibling only if it exists (passing the true parent and index), for a condition only if a notation that can see the node tests it, and for a style label only if the node's own notation uses it. A document whose accessors panic outside these preconditions can therefore always be printed.",
 ["schedules","fault_sequences","inputs"],
 "the complete history of document calls made by any session of opens, pulls, failures and pane displays over any document",
 "The example documents tolerate most illegal calls silently, and no test records the calls made.",
 [CN,"src/pretty_doc.rs",NO],
 [("child count checked before access",CN+": DelayedConsolidatedNotation::eval"),("negative index normalisation",NO+": normalize_child_index"),("fold position tracking",CN+": JoinPos"),("default sibling accessors",PD+": unwrap_last_child, unwrap_prev_sibling")],
 ["calls received by a PrettyDoc implementation"])

prop("C08","Printing near a focus works only on what is near the focus",
 "Opening a print at a focus and pulling k lines around it consults only the nodes on the focus path, the nodes displayed within or next to those lines, and a look-ahead limited by the line width; parts of the document far from the requested lines may be unavailable or practically infinite without affecting the result. The number of document accesses is bounded in terms of the lines requested, the path length, the fan-out and the width, and does not grow with the size of the document. Displaying a document in a pane does work bounded by what the pane shows, however tall the window.",
 ["fault_sequences","inputs","histories"],
 "all well-behaved documents (hard line breaks between items of a broken container) up to astronomically large ones, all focus paths and windows, with every far-away node permanently failing",
 "Tests only look at output, never at what was accessed; a print that walks the whole document gives the same output and passes.",
 [PP,CN,DP],
 [("delayed notations",CN+": DelayedConsolidatedNotation"),("only the block containing the focus is resolved",PP+": seek_child"),("fit test stops at the line end or when the width is used up",PP+": fits"),("panes take only the lines that fit",DP+": PrintedDoc::new")],
 ["number and targets of document calls per operation"])

prop("C09","Printing always terminates without panicking, even while the document changes",
 "For any accepted notation and any document, however deep, wide or long its lines, every open, pull, string print and pane display ends within a bounded number of steps with a result or a reported error, and never panics, overflows or hangs. This includes documents edited between or in the middle of operations, pane weights of zero and windows of any size. Text too wide for the column counter is treated as filling the whole counter, never as narrow.",
 ["histories","inputs","configurations","schedules"],
 "all histories of edits (text, child lists, notations swapped) applied between any two document accesses, all window sizes, pane weights and width strategies, and documents with extreme depth and line width",
 "Tests use small static documents with lines under 100 columns, and small windows with sensible weights.",
 [PP,CN,GE,DP,DV,"src/pane/printing_options.rs"],
 [("errors for inconsistent documents",CN+": PrintingError"),("iterative expansion",PP+": expand_focusing_*"),("column arithmetic",GE+": str_width"),("space division",DV+": Divvier"),("focus row choice","src/pane/printing_options.rs: choose_focus_line_row")],
 ["absence of panics and step counts of every public operation"])

prop("C10","Window cells are drawn in bounds, at most once, and completely",
 "During one display, every character is drawn wholly inside the window and inside the rectangle of the pane it belongs to, no cell is drawn twice (a full-width character covers two cells and is flagged full-width), and every cell of a pane that shows a document or a fill is drawn. This holds for every prefix of the drawing up to the point where a window or document failure interrupts it.",
 ["inputs","fault_sequences","crash_points"],
 "all window sizes, pane trees, documents and fills including full-width characters, and every drawing call as the failing one",
 "Tests compare a final text rendering in which double drawing, out-of-bounds drawing and the full-width flag are invisible.",
 [DP,DV,"src/pane/pretty_window.rs"],
 [("clipping",DP+": display_line, display_blank_line, Fill"),("rectangle splitting",DP+": display_pane_rec"),("space division",DV+": finish")],
 ["calls received by a PrettyWindow implementation"])

prop("C11","A displayed frame is a function of the current panes, documents and size",
 "Each display shows, for every document pane, the document's lines with the focus line on the requested row, clipped to the pane and padded with blanks in the pane's style; space goes to fixed sizes first, then to dynamic panes (exactly what their visible content needs, so that all of it is shown, as far as space remains), then to proportional panes fairly. The focus of every document that asks for it is reported at the cell where the text following the focus is drawn. A frame never depends on earlier frames, failed displays, resizes, edits or missing documents.",
 ["histories","inputs","configurations"],
 "all histories of redraws with resizes, edits, focus moves, pane tree changes, documents disappearing and failed redraws in between; all pane trees and printing options",
 "Tests render about a dozen fixed frames, each on a new window; dynamic panes only with the focus at the top, styles never observed, one focus report.",
 [DP,DV,"src/pane/printing_options.rs","src/pane/pane_notation.rs"],
 [("pane recursion",DP+": display_pane_rec"),("document placement",DP+": PrintedDoc"),("fair division",DV+": allocate_fixed, allocate_dynamic, allocate_proportional")],
 ["display_pane() on a recording PrettyWindow"])

prop("C12","A failed display reports its cause, stops, and a redraw repairs it",
 "When the window fails, display stops at once, makes no further window call, and reports exactly that window error; when a document fails, it reports exactly that document error and the failing document draws no cell and no focus; a dynamic pane that is not a document is reported as such. What was drawn before the failure is exactly what a failure-free display draws first. Once the cause is gone, displaying again produces the complete failure-free frame.",
 ["fault_sequences","crash_points"],
 "every window call and every document access of a display as the failing one, over all pane trees, followed by a healed redraw",
 "The only window in the tests is infallible, as are all documents; no error path of the pane module is executed by any test.",
 [DP,"src/pane/pretty_window.rs"],
 [("error mapping and propagation",DP+": display_pane_rec, display_line, display_blank_line, PrintedDoc::display"),("print before draw",DP+": PrintedDoc::new"),("dynamic pane check",DP+": extract_doc")],
 ["Result of display_pane() and the calls received by the window"])

prop("C13","Example documents built concurrently keep per-thread ids and content",
 "Nodes of example documents get consecutive identifiers counted from the last reset on their own thread, whatever other threads create or reset meanwhile. Which children are followed by a separator depends only on the branch they are now in (also when a node was part of another branch before): printing a JSON example document, at any width and with comments anywhere among the elements, gives text that reads back as the same value and the same comments (its strings needing no escapes, its numbers being finite).",
 ["schedules","inputs"],
 "all interleavings of node construction, counter resets and printing on several threads; all JSON-with-comments values and widths",
 "Unit tests each build one document on their own thread and never observe ids of other threads, nor read printed JSON back.",
 [TR,"src/doc_examples/json.rs"],
 [("thread-local id counter",TR+": ID_COUNTER, next_id, reset_id"),("separator marking",TR+": Tree::new_branch"),("shared notations","src/doc_examples/json.rs: JSON_*_NOTATION")],
 ["Tree.id","pretty_print_to_string() of Json documents"],
 [("ID_COUNTER","next node id of this thread",TR)])

prop("C14","Stored notations survive storage intact, and damaged ones are contained",
 "A notation written to storage and read back is the same notation: it is accepted or rejected by validation as before, and prints the same. If the stored bytes are truncated, torn or altered, loading either fails, or the result is rejected by validation, or it can be printed with every document without panicking: validation rejects exactly the notations that have a documented flaw, naming one they have. It never accepts a fold placeholder or sibling check outside a fold join, nested folds or counts, text inside them, children in a zero case, out-of-range children in a one case, text that may directly follow an end-of-line, or a focus mark certain to follow another (what a fold or its placeholders display, even if it is nothing, is not looked into).",
 ["fault_sequences","crash_points","inputs"],
 "all notations; all truncations, torn writes, lost writes, bit flips and splices of their stored form; all documents printed with the result",
 "Serialization is compiled but never executed by the tests, and validation is only tried on hand-written notations.",
 [NO,VN],
 [("serialization derive",NO+": Notation, CheckPos"),("validation",VN+": validate_rec")],
 ["serde round trip of Notation","Notation::validate()"])

# --- pure functions of their input: not simulation targets
prop("N01","Proportional space division is fair to within one unit",
 "Among proportional panes, each receives the floor or the ceiling of its exact share of the space left, the extra units going to the largest remainders with ties to the leftmost, and all the space is given out when any weight is positive.",
 ["inputs"],"all weights and amounts of space","One table of examples is tested.",
 [DV],[("largest remainder division",DV+": allocate_proportional")],["pane rectangles"])
prop("N02","Notation operators and constructors mean what they abbreviate",
 "The shorthand operators and constructor functions build exactly the notation they are documented to abbreviate, and the textual form of a notation names its structure.",
 ["inputs"],"all notations","Only exercised indirectly.",
 [NO,"src/notation_constructors.rs"],[("operators",NO+": Add, BitOr, BitXor, Shr"),("constructors","src/notation_constructors.rs")],["Notation values"])
prop("N04","Column widths follow Unicode East Asian width",
 "The width of a string in columns is at least the number of columns a terminal uses for it.",
 ["inputs"],"all Unicode strings","A few strings are measured through layouts.",
 [GE],[("width table lookup",GE+": str_width, is_char_full_width")],["Segment.width"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
