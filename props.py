"""What each property's check explores, per tier."""
BIN_FEATURES = {"prog": "prog", "conc": "prog", "sig": "sig"}


def E(bin, entry, quick, thorough, bound, reach=(1,), what="", **opts):
    d = {"bin": bin, "entry": entry, "bound": bound, "reach": list(reach), "what": what, "opts": opts}
    if quick is not None:
        d["quick"] = quick
    if thorough is not None:
        d["thorough"] = thorough
    return d


CH = "each any ASCII character (7 symbolic bits) or one of œ 宽 U+0301 😀"
PROPS = {}


def P(pid, *entries, **kw):
    PROPS[pid] = dict(entries=list(entries), **kw)


ASCII = "any ASCII character (7 symbolic bits)"
SIDE = "é or " + ASCII

P("P01",
  E("text", "h_parts", [1, 2], [2, 2], lambda c, k: "every message whose prefix, body and suffix have up to %d characters (%s), 0 to 2 indents, with and without timestamp and newline; then every sequence of %d setter or builder calls with such arguments, every indent byte" % (c, SIDE, k), (1, 2), "setters from an arbitrary message"),
  E("text", "h_history", [1, 3], [1, 4], lambda c, k: "every sequence of %d setter or builder calls from each constructor, parts of up to %d characters (%s)" % (k, c, SIDE), (1, 2), "setters from the constructors"),
  E("text", "h_views", [2], [3], lambda c: "every pair of messages of a body of up to %d and a suffix of up to 1 characters (%s)" % (c, SIDE), (1, 2), "len, ==, cmp, hash, Display, From, into_*"),
  E("text", "h_print", [2], [3], lambda c: "every prefix of up to 1 and body of up to %d characters" % c, (1,), "print, eprint"),
  E("text", "h_stamp", [], [], lambda: "7 moments, any fraction of a second"),
  E("text", "h_parts_long", [12], [14], lambda n: "messages with a long prefix, body or suffix, every single edit, then a symbolic suffix and no prefix, each of %d lengths from 31 to 65536" % n, (1,)),
  assumes=["the wall clock is fixed at one instant and the time zone is UTC"])
P("P02",
  E("text", "h_new_text", [2], [4], lambda c: "every plain prefix and body of up to %d characters (%s), every argument type" % (c, SIDE), (1, 2)),
  E("text", "h_new_color", [1], [2], lambda c: "every coloured prefix of up to %d characters (%s), every colour byte, every argument type, every body of up to 1 character" % (c, SIDE), (1, 2)),
  E("text", "h_new_kind", [2], [4], lambda c: "every kind, every body of up to %d characters (%s)" % (c, SIDE), (1, 2)),
  E("text", "h_new_long", [14], [14], lambda n: "plain and coloured prefixes and bodies, each of %d lengths from 31 to 65536" % n, (1,)))
P("P03",
  E("text", "h_strip", [6], [7], lambda n: "every body and suffix of together up to %d characters, each %s; with and without newline, indentation and timestamp" % (n, ASCII), (1, 2)),
  E("text", "h_strip_pre", [4], [6], lambda n: "every prefix of up to %d characters, each %s" % (n, ASCII), (1,)),
  E("text", "h_strip_tok", [4], [5], lambda n: "every body of up to %d tokens out of 9 (openers, terminators, whole sequences) with 3 suffixes" % n, (1, 2)),
  E("text", "h_strip_long", [14], [14], lambda n: "4 kinds of long sequence, long texts and up to 300 sequences, each of %d lengths from 31 to 65536" % n, (1,)))
P("P04",
  E("text", "h_fit", [4], [6], lambda n: "every text of up to %d characters, %s; every 64-bit width" % (n, CH), (1, 2)),
  E("text", "h_fit_tok", [4], [5], lambda n: "every text of up to %d tokens out of 10 (breaks, openers, terminators, wide characters); every 64-bit width" % n, (1, 2)),
  E("text", "h_fit_msg", [3], [4], lambda n: "every info message with a body of up to %d characters (ASCII, line break, 宽) and a formatted suffix; every 64-bit width" % n, (1,)),
  E("text", "h_fit_special", [2], [2], lambda n: "every text of up to %d special characters (40 sorts), with others and sequences around; every 64-bit width" % n, (1, 2)),
  E("text", "h_fit_long", [14], [14], lambda n: "long lines with or without long sequences, alone or among others; widths about theirs, each of %d lengths from 31 to 65536" % n, (1, 2)),
  E("text", "h_fit_lines", [12], [14], lambda n: "many lines, each of %d lengths from 31 to 65536" % n, (1, 2)))
P("P05",
  E("text", "h_cut", [4], [6], lambda n: "every text of up to %d characters, %s; every 64-bit limit" % (n, CH), (1, 2), "length_width"),
  E("text", "h_cut_tok", [4], [6], lambda n: "every text of up to %d tokens out of 9 (openers, wide and combining characters, terminators); every 64-bit limit" % n, (1, 2), "length_width, width"),
  E("text", "h_width", [4], [6], lambda n: "every text of up to %d characters, %s" % (n, CH), (1, 2), "width"),
  E("text", "h_cut_utf8", [2], [2], lambda n: "every valid UTF-8 text of up to %d bytes, all bytes symbolic; every 64-bit limit" % n, (1, 2), "length_width against width"),
  E("text", "h_cut_special", [2], [3], lambda n: "every text of up to %d special characters (40 sorts), with others and sequences around; every 64-bit limit" % n, (1, 2), "length_width, width"),
  E("text", "h_cut_long", [14], [14], lambda n: "long texts with or without long sequences; symbolic limits about theirs, each of %d lengths from 31 to 65536" % n, (1, 2)))
P("P06",
  E("text", "h_prompt", [3], [4], lambda n: "every first line of up to %d characters, each %s but the line break, then a valid line" % (n, ASCII), (1, 2, 3)),
  E("text", "h_prompt_tok", [2], [3], lambda n: "every input of up to %d lines out of 11 (cases, spaces, wide letters), then the end of the input, with or without a partial last line" % n, (1, 2, 3)),
  E("text", "h_prompt_macro", [], [], lambda: "the six forms of confirm!, indentation 0 to 2, 6 answers after none or one invalid", (1, 2)),
  E("text", "h_prompt_bad", [3], [4], lambda n: "every first line of up to %d bytes that is not UTF-8" % n, (1,)),
  E("text", "h_prompt_err", [2], [4], lambda n: "every partial line of up to %d characters or words followed by one or two read errors" % n, (1,)),
  E("text", "h_prompt_long", [12], [14], lambda n: "answers with long runs of spaces or others and any character around, each of %d lengths from 31 to 65536" % n, (1, 2, 3)),
  E("text", "h_prompt_many", [11], [11], lambda n: "numbers of invalid answers, each of %d lengths from 31 to 65536" % n, (1, 2, 3)))

P("P07",
  E("text", "h_color", [], [], lambda: "every pair of colour bytes"),
  E("text", "h_color_str", [], [], lambda: "every colour byte"),
  E("text", "h_color_names", [], [], lambda: "every named colour"))
P("P08",
  E("text", "h_kind_table", [], [], lambda: "every pair of kinds"),
  E("text", "h_kind_parse", [9], [11], lambda n: "every byte string of up to %d bytes" % n, (1, 2)))
P("P11",
  E("prog", "h_ba", [], [], lambda: "every pair of 64-bit sizes", (1, 2), "less, less_percent, from"),
  E("prog", "h_ba_pct", [24], [40], lambda n: "every pair of sizes below 2^%d" % n, (1,), "the percentage is the ratio"))
P("P12",
  E("prog", "h_saved", [20], [52], lambda n: "every pair of sizes below 2^%d (set or unset), every message of a prefix, body and suffix" % n, (1, 2)),
  E("prog", "h_saved_big", [4, 4, 2], [10, 8, 4], lambda n, k, m: "each of %d sizes up to 2^64 - 1, before or after, with every difference of %d bits at %d positions" % (k, n, m), (1, 2)))
P("P13",
  E("prog", "h_totals", [], [], lambda: "every value of each of the 12 integer and 6 non-zero types", (1, 2)))

TICK = "the terminal keeps its size for two ticks; time moves only by sleeping and timeouts"
P("P14",
  E("prog", "h_count", [2, 32, 1], [2, 32, 1], lambda k, b, s: "every sequence of up to %d operations with every %d-bit number, the ticker running in between" % (k, b), (1, 2)),
  E("prog", "h_count", [3, 7, 0], [4, 7, 0], lambda k, b, s: "every sequence of up to %d operations with every number below 2^%d" % (k, b), (1, 2)),
  assumes=[TICK], outside="other schedules of the ticker (see P15)")
LAB = "any ASCII character (7 symbolic bits), é, 宽, U+0085, U+2028 or U+009B"
P("P17",
  E("prog", "h_label", [3], [5], lambda n: "every label of up to %d characters, each %s" % (n, LAB), (1, 2)),
  E("prog", "h_label_tok", [4], [5], lambda n: "every label of up to %d tokens out of 12 (openers, terminators, whitespace, whole sequences)" % n, (1, 2)),
  E("prog", "h_label_special", [2], [3], lambda n: "every label of up to %d characters out of 30 sorts of whitespace, controls and their neighbours, others around" % n, (1, 2)),
  E("prog", "h_title", [4], [6], lambda n: "every title of up to %d characters, each %s, set in 4 ways" % (n, LAB), (1, 2)),
  E("prog", "h_label_long", [12], [12], lambda n: "long labels, sequences and runs of spaces around any character, each of %d lengths from 31 to 65536" % n, (1, 2)),
  E("prog", "h_title_long", [12], [12], lambda n: "long titles, each of %d lengths from 31 to 65536" % n, (1,)),
  assumes=[TICK])
P("P19",
  E("prog", "h_fit_width", [6, 3], [6, 3], lambda c, t: "every 16-bit width, %d pairs of count and total, %d sets of title and tasks" % (c, t), (1, 2)),
  E("prog", "h_fit_steps", [3, 5], [4, 5], lambda k, w: "%d starting widths, every 16-bit height, then every %d changes of title, tasks, width or height, a frame after each" % (w, k), (1, 2)),
  E("prog", "h_fit_rows", [257], [257], lambda n: "every 16-bit height with every number of tasks below %d, and 300, with and without a title" % n, (1, 2)),
  assumes=[TICK])
P("P25",
  E("prog", "h_summary", [10, 5], [10, 5], lambda m, k: "every total and count, %d elapsed times, %d kinds, 3 nouns" % (m, k), (1, 2)),
  assumes=[TICK])

SCH = "every schedule of the threads and the ticker with up to %d preemptions (at any atomic operation, lock or write) and %d ticks at any time"
SC = "sequentially consistent memory; the terminal keeps its size; threads interleave at atomic operations, futexes and writes"
P("P18",
  E("prog", "h_tasks", [4], [5], lambda k: "every sequence of up to %d additions and removals of 5 labels; then the end and a restart" % k, (1, 2)),
  E("prog", "h_task_text", [2, 2], [3, 3], lambda a, b: "every two labels of up to %d and %d characters (any ASCII, é, 宽)" % (a, b), (1, 2)),
  E("prog", "h_task_long", [12], [12], lambda n: "long labels that differ in at most one symbolic character, each of %d lengths from 31 to 65536" % n, (1, 2)),
  E("prog", "h_task_many", [8], [8], lambda n: "%d numbers of tasks up to 300, half or all removed in three orders" % n, (1, 2)),
  E("conc", "h_current", [1, 1, 8, 4], [2, 1, 8, 4], lambda p, t, a, b: SCH % (p, t) + "; %d changes against %d in another thread, 3 states before: the next frame shows them" % (a, b), (1,)),
  assumes=[TICK, SC], outside="more than 5 labels at once; labels that do not fit the window (see P19)")
P("P20",
  E("prog", "h_bar", [6, 3], [8, 8], lambda b, w: "every total and count below 2^%d, %d widths" % (b, w), (1, 2)),
  E("prog", "h_bar_big", [3, 2], [8, 6], lambda t, w: "%d totals up to 2^32-1, every 32-bit count below them, %d widths" % (t, w), (1, 2)),
  E("prog", "h_bar_clock", [], [], lambda: "14 times since the start, up to 2^32 s", (1, 2)),
  E("prog", "h_bar_steps", [3], [4], lambda k: "every sequence of %d changes of count, total or width, a frame after each" % k, (1, 2, 3)),
  E("conc", "h_current", [1, 2, 8, 4], [2, 1, 8, 4], lambda p, t, a, b: SCH % (p, t) + "; %d changes against %d in another thread, 3 states before: the next frame shows them" % (a, b), (1,)),
  E("conc", "h_current", [2, 1, 8, 1], [3, 2, 8, 1], lambda p, t, a, b: SCH % (p, t) + "; %d changes against %d in another thread, 3 states before: the next frame shows them" % (a, b), (1,)),
  assumes=[TICK, SC], outside="other totals with counts of more than 8 bits")
P("P15",
  E("conc", "h_sum", [2, 1], [3, 1], lambda p, t: SCH % (p, t) + "; two threads, every 32-bit total and increments", (1, 2)),
  E("conc", "h_linear", [1, 1, 1, 2], [2, 1, 1, 2], lambda p, t, a, b: SCH % (p, t) + "; one thread with %d and one with %d of 9 operations" % (a, b), (1, 2)),
  E("conc", "h_linear", [2, 0, 1, 1], [3, 0, 1, 1], lambda p, t, a, b: SCH % (p, t) + "; one thread with %d and one with %d of 9 operations" % (a, b), (1, 2)),
  E("conc", "h_linear_reset", [1, 1], [2, 1], lambda p, t: SCH % (p, t) + "; one thread restarts, the other does one of 7 operations", (1, 2)),
  E("conc", "h_sum3", [2, 0, 2, 2], [3, 0, 3, 3], lambda p, t, a, b: SCH % (p, t) + "; three threads, two incrementing, the third one of %d increments or removals, %d totals" % (b, a), (1, 2)),
  assumes=[SC], outside="more than three threads besides the ticker, or three with other operations; weaker memory orderings")
P("P16",
  E("conc", "h_after", [2, 1, 5], [3, 1, 5], lambda p, t, o: SCH % (p, t) + "; 4 ways to end, 5 things to do meanwhile, 6 states before", (1,)),
  assumes=[SC], outside="three or more threads besides the ticker; weaker memory orderings")
P("P21",
  E("conc", "h_end", [1, 1], [2, 1], lambda p, t: SCH % (p, t) + "; 4 ways to end or restart against 6, 6 states before", (1, 2)),
  E("conc", "h_life", [4, 1, 1], [5, 1, 1], lambda k, p, t: SCH % (p, t) + "; every sequence of up to %d of 7 life events in one thread" % k, (1, 2)),
  E("sig", "h_cursor", [1, 1], [2, 1], lambda p, t: SCH % (p, t) + "; the cursor, with signal support: 6 things to do against 4 in another thread, with and without an own interrupt policy", (1, 2)),
  assumes=[SC], outside="three or more threads besides the ticker; weaker memory orderings")
P("P23",
  E("conc", "h_push", [2, 1, 1, 1], [2, 1, 4, 2], lambda p, t, a, b: SCH % (p, t) + "; a message pushed (%d forms) while another is, or the bar ends, is completed or restarted; 6 states before" % a, (1,)),
  E("conc", "h_push", [1, 2, 4, 4], [1, 2, 4, 4], lambda p, t, a, b: SCH % (p, t) + "; the same, %d forms of message" % a, (1,)),
  E("conc", "h_push_seq", [4], [6], lambda k: "every sequence of %d pushes (4 messages), changes and ticks in one thread" % k, (1, 2)),
  E("conc", "h_push_text", [3], [5], lambda n: "every message of up to %d characters (any ASCII, é, 宽), running or stopped" % n, (1, 2)),
  E("conc", "h_push_long", [12], [12], lambda n: "messages of each of %d lengths from 63 to 140000 bytes" % n, (1, 2)),
  E("conc", "h_push_fail", [8], [60], lambda n: "any one of the first 6 writes fails, is interrupted, or takes only up to %d bytes" % (n - 1), (1, 2)),
  assumes=[SC], outside="three or more threads besides the ticker; several failing writes")

SIGS = "an interrupt on any thread before any of its atomic operations, locks or writes"
P("P22",
  E("sig", "h_first_policy", [4], [6], lambda k: "every sequence of up to %d choices of policy, then interrupts" % k, (1, 3)),
  E("sig", "h_default", [1, 1, 2], [2, 1, 2], lambda p, t, n: SCH % (p, t) + "; up to %d times " % n + SIGS + "; 4 states, 8 things to do meanwhile", (1, 2)),
  E("sig", "h_soft", [1, 1, 1], [2, 1, 1], lambda p, t, n: SCH % (p, t) + "; up to %d times " % n + SIGS + "; 4 states, 8 things to do meanwhile; both policies", (1, 3, 4, 5)),
  E("sig", "h_soft", [0, 0, 2], [1, 1, 2], lambda p, t, n: SCH % (p, t) + "; up to %d times " % n + SIGS + "; 4 states, 8 things to do meanwhile; both policies", (1, 3, 4, 5)),
  assumes=[SC, "an interrupt that comes before the policy is registered, or on a thread while it registers one, is not the library's"],
  outside="under the default policy and at the second strike, a ticker that starts at the very moment of the interrupt may hide the cursor again between its restoration and the end of the process (there it is only checked that the cursor was shown); signals interrupting a handler on the same thread")
P("P26",
  E("sig", "h_resize", [0, 0, 0], [0, 0, 0], lambda p, t, n: "every 16-bit width; one resize signal on any thread before any of its atomic operations, locks or writes; 8 things to do meanwhile", (1, 2, 3)),
  E("sig", "h_resize", [1, 1, 3], [1, 1, 9], lambda p, t, n: SCH % (p, t) + "; %d widths; one resize signal on any thread before any of its atomic operations, locks or writes; 8 things to do meanwhile" % n, (1, 2, 3)),
  assumes=[SC])

ARG = "any ASCII character (7 symbolic bits, not NUL)"
P("P09",
  E("cli", "h_first", [5], [12], lambda n: "every first argument of up to %d characters, each %s, and what may follow" % (n, ARG), (1, 3, 4, 5, 10, 11)),
  E("cli", "h_args", [3, 0], [4, 0], lambda k, m: "every list of %d arguments, each one of 20 flags, values and texts or symbolic text, text with -e, --exit=, -p, --prefix= or bytes that are not UTF-8, for a fixed kind" % k, (1, 2, 3, 5)),
  E("cli", "h_args", [2, 1], [4, 1], lambda k, m: "the same %d arguments for print with a prefix and colour" % k, (1, 2, 3, 5)),
  E("cli", "h_say", [4], [7], lambda n: "every kind, flags in every form and order around a message of up to %d characters, each %s" % (n, ARG), (1, 3, 5)),
  E("cli", "h_value", [2], [3], lambda n: "every value of up to %d characters of the exit and colour options" % n, (5,)),
  E("cli", "h_number", [3], [12], lambda n: "every decimal number of up to %d digits for the same, after nothing, a space, zeros or a sign" % n, (5,)),
  E("cli", "h_prefix", [6], [12], lambda n: "every prefix of up to %d characters" % n, (5,)),
  E("cli", "h_blank", [2], [3], lambda n: "every count of up to %d characters" % n, (1, 4)),
  E("cli", "h_blank_large", [], [], lambda: "12 counts around the limits of small integers", (4,)),
  E("cli", "h_blank_huge", [], [], lambda: "5 huge counts, until the reader leaves", (1,)),
  E("cli", "h_long", [10], [10], lambda n: "messages and prefixes of each of %d lengths from 255 to 65537, one symbolic character" % n, (5,)),
  assumes=["the clock and the time zone are fixed; the streams are not terminals"],
  outside="environment variables; more arguments than the bound")
P("P10",
  E("cli", "h_confirm", [7], [12], lambda n: "every first line of up to %d characters, then a valid line; the default and indentation flags" % n, (1, 2, 3)),
  E("cli", "h_confirm_tok", [3], [4], lambda n: "every input of up to %d lines out of a list, then the end of the input; the default and indentation flags" % n, (1, 2, 3)),
  E("cli", "h_confirm_args", [2], [3], lambda n: "every list of %d arguments of the confirm command" % n, (1, 2, 3, 5)))
P("P24",
  E("ansi", "h_num", [], [], lambda: "every colour number: set, unset, in combinations, wrapping text, against the runtime colour"),
  E("ansi", "h_name", [], [], lambda: "every colour name"),
  E("ansi", "h_style", [], [], lambda: "every style and every ordered pair of styles, alone and inside triples"),
  E("ansi", "h_wrap", [], [], lambda: "every shortcut macro; nesting"),
  outside="names the macros do not accept; longer compositions")

HOOKS = {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []}
NOT_APPLICABLE = {}

# Not a property (run by hand after a change of the engine): parts of std that the code under test does not use, but could.
P("SELF", *[E("eng", e, p, None, lambda *a: "std", (1,)) for e, p in [("h_coll", []), ("h_num", []), ("h_num2", []), ("h_fmt", []), ("h_str", []), ("h_sync", [1, 1]), ("h_chan", [1, 1]), ("h_park", [1, 1]), ("h_atom", []), ("h_time", []), ("h_io", []), ("h_misc", [])]])
