"""What each check runs: (harness entry, argument, seconds, bound in words)."""


class Task:
    def __init__(self, export, arg, secs, what, reach=(1,), best=False, flags="rs", kind="plain"):
        self.export, self.arg, self.secs, self.what = export, arg, secs, what
        self.reach, self.best, self.flags, self.kind = reach, best, flags, kind


def arg(depth, count=0, length=0, stem=0, full=0, skip=0, floating=0, layout=0, front=0, mode=0, long=0):
    return mode << 14 | long << 31 | depth | count << 4 | length << 8 | stem << 12 | full << 13 | skip << 16 | floating << 24 | layout << 28 | front << 30


ANY = 255 << 16
DAMAGE = ["one byte replaced by any other", "cut off at any place", "any byte put in at any place", "a character outside ASCII or NUL put in at any place",
          "one byte taken out", "", "", "", "one part of it left out", "one part doubled", "one part exchanged with the next one of the same group",
          "one part replaced by one of 73 remarkable words and groups", "one of 73 remarkable words and groups put in front of one part",
          "one part put in parentheses", "the parentheses of one group taken away"]
PARTS = range(8, 15)
BUTFEW = 254  # any element but domain, problem and the three structures


def raw(how, n=0, depth=-1, kind=255, mode=0, full=0, exact=0, long=0):
    return depth + 1 | how << 4 | n << 8 | kind << 16 | mode << 12 | full << 14 | exact << 15 | long << 24


ASSUME = [
    "rustc and LLVM compile the crate for wasm32 with the meaning they give it natively (sampled paths of every run are replayed natively)",
    "the symbolic executor /verif/engine implements WebAssembly correctly; Z3 4.8.12 answers correctly",
    "memchr's SIMD search is replaced by a plain loop (stubs/memchr.rs) and the allocator by a bump allocator",
]
SHAPE = "every text the grammar generates for it with nesting at most %d on one path (siblings off the path in one fixed shape), fixed names"
FULL = "every text the grammar generates for it with nesting at most %d in all places, fixed names"
LEAN = "every text the grammar generates for it with nesting at most %d in all places, where the innermost choices are among two and two elements of each list vary"
NAMES = "every text with nesting at most 1, one name after another replaced by an arbitrary well-formed name of up to %d symbolic characters"
STEMS = "every text with nesting at most 1, one name after another replaced by one of 26 keyword-like stems followed by an arbitrary name character"
EXACT = "every text with nesting at most 1, one name after another replaced by one of 25 keyword-like words"
TWINS = "every text with nesting at most %d whose sibling parts are all alike in shape, with names and numbers alike or different, like numbers 0, 1 or 2.5"
WIDES = "every text with nesting at most %d and one list in it of 4, 5, 7, 8, 9, 16, 17, 33 or 65 elements; names all different, all alike or taking turns"
DEEPS = "every text of nesting %d in which two levels repeat in turn down to the innermost"
LONGS = "every text with nesting at most %d, one name after another replaced by one of 12 to 257 characters"
OUT = "deeper nesting, longer lists and names than stated, names outside [A-Za-z][A-Za-z0-9_-]*, other layouts than one space (see C08)"


def gen(export, deep=2, names=4, stems=4, full=1, lean=2, thorough_deep=3, nsecs=60, modes="twdl", twin=2):
    """the usual tasks of a grammar entry"""
    q = [Task(export, arg(deep), 60, SHAPE % deep)]
    if full:
        q.append(Task(export, arg(full, full=1), 60, FULL % full))
    if lean:
        q.append(Task(export, arg(lean, full=1, mode=3), 60, LEAN % lean))
    if names:
        q.append(Task(export, arg(1, 1, 2, floating=names), nsecs, NAMES % 2))
    if stems:
        q.append(Task(export, arg(1, 1, 1, stem=1, floating=stems), nsecs, STEMS))
        q.append(Task(export, arg(1, 1, 0, stem=1, floating=stems), nsecs, EXACT))
    m = modes
    if "t" in m:
        q.append(Task(export, arg(twin, mode=1), 40, TWINS % twin))
    if "w" in m:
        q.append(Task(export, arg(1, mode=2), 60, WIDES % 1))
    if "d" in m:
        q.append(Task(export, arg(6, mode=3), 40, DEEPS % 6))
    if "l" in m:
        q.append(Task(export, arg(1, 1, floating=4, long=1), 40, LONGS % 1))
    t = [
        Task(export, arg(twin + 1, mode=1), 60, TWINS % (twin + 1), best=True),
        Task(export, arg(2, mode=2), 60, WIDES % 2, best=True),
        Task(export, arg(9, mode=3), 60, DEEPS % 9, best=True),
        Task(export, arg(thorough_deep), 120, SHAPE % thorough_deep, best=True),
        Task(export, arg(2, full=1), 120, FULL % 2, best=True),
        Task(export, arg(lean + 1, full=1, mode=3), 120, LEAN % (lean + 1), best=True),
        Task(export, arg(1, 2, 2, floating=4), 120, NAMES % 2 + "; two neighbouring names at once", best=True),
        Task(export, arg(2, 1, 2, floating=4), 120, "as above with nesting 2", best=True),
    ]
    return q, t


def long_names(export):
    return [Task(export, arg(0, 1, skip=s, floating=15, long=1), 40, "all sections at once in one fixed form, one name after another (%d to %d) replaced by one of 12 to 257 characters" % (s, s + 14))
            for s in (0, 15, 30)] + [
            Task(export, arg(0, 1, 0, stem=1, skip=s, floating=15), 40, "all sections at once in one fixed form, one name after another (%d to %d) replaced by one of 25 keyword-like words" % (s, s + 14))
            for s in (0, 15, 30)], []


def prop(*gens, **kw):
    q, t = [], []
    for a, b in gens:
        q += a
        t += b
    return dict(quick=q, thorough=t, outside=kw.pop("outside", OUT), **kw)


PROPS = {
    "C01": prop(gen("g_gd", deep=3, lean=1)),
    "C02": prop(gen("g_pregd", deep=3, lean=1)),
    "C03": prop(gen("g_effect", deep=3, lean=1)),
    "C04": prop(gen("g_dur", deep=2), gen("g_dagd", deep=2, lean=1), gen("g_daeff", deep=2, stems=1, names=2, full=0, lean=1), gen("g_durative", deep=2, full=0, lean=1)),
    "C05": prop(gen("g_fexp", deep=3), gen("g_fexpda", deep=2), gen("g_metric", deep=2)),
    "C06": prop(gen("g_congd", deep=2, lean=1), gen("g_prefcon", deep=2)),
    "C07": prop(gen("g_tvars", deep=2), gen("g_tnames", deep=2), gen("g_flist", deep=2)),
    "C14": prop(gen("g_domain", deep=1, full=0, lean=0, names=2, stems=0, modes="twd", twin=1), long_names("g_domain_all"), gen("g_action", deep=2), gen("g_derived", deep=2),
                ([Task("g_domain_mask", arg(1), 30, "every subset of the optional sections, one fixed content each")], [])),
    "C15": prop(gen("g_problem", deep=1, full=0, lean=0, names=2, stems=0, modes="twd", twin=1), long_names("g_problem_all"), gen("g_init", deep=2), gen("g_inits", deep=1, names=0, stems=0), gen("g_length", deep=2, names=0, stems=0, modes=""),
                ([Task("g_problem_mask", arg(1), 30, "every subset of the optional sections, one fixed content each")], [])),
}

WELL = "the well-formed text of each of the 72 elements with nesting %d"


WELL67 = WELL.replace("72", "67 smaller")


def modes(export, depth=1, best=False):
    """the well-formed texts of particular kinds, for the entries that are about all elements"""
    t = [Task(export, raw(7, depth=depth, mode=1, kind=BUTFEW), 40, WELL67 % depth + ", sibling parts all alike, names and numbers alike or different", best=best),
         Task(export, raw(7, depth=depth, mode=3, full=1, kind=BUTFEW), 40, WELL67 % depth + " in all places, where the innermost choices are among two", best=best),
         Task(export, raw(7, depth=0, full=1, kind=BUTFEW), 40, WELL67 % 0 + " in all places", best=best)]
    if depth:
        t += [Task(export, raw(7, depth=2 + depth, mode=3, kind=BUTFEW), 40, WELL67 % (2 + depth) + " in which two levels repeat in turn", best=best),
              Task(export, raw(7, depth=depth - 1, mode=2, kind=BUTFEW), 40, WELL67 % (depth - 1) + " and one list of 4 to 65 elements in it, names all different, alike or taking turns", best=best)]
    for d, k, w in ((depth - 1, BUTFEW, WELL67), (-1, 255, WELL)):
        if d >= 0 or k == 255:
            t += [Task(export, raw(7, depth=d, exact=1, kind=k), 40, w % d + ", one name a keyword-like word", best=best),
                  Task(export, raw(7, depth=d, long=1, kind=k), 40, w % d + ", one name of 12 to 257 characters", best=best)]
    return t


def damaged(export, depth, hows, secs, kind=255, **kw):
    return [Task(export, raw(h, depth=depth, kind=kind), secs, (WELL % depth).replace("72", "72" if kind == 255 else "67 smaller") + ", " + DAMAGE[h], reach=(), **kw) for h in hows]


LAYOUT1 = "every text with nesting %d, at one place after another up to three arbitrary characters of layout (blanks, comments)"
LAYOUT2 = "every text with nesting %d, at all places the same arbitrary layout (none where the grammar needs none, blanks, comments)"
ENTRIES = ["g_gd", "g_pregd", "g_effect", "g_dagd", "g_daeff", "g_dur", "g_fexp", "g_fexpda", "g_metric", "g_congd", "g_prefcon", "g_action", "g_durative",
           "g_derived", "g_tvars", "g_tnames", "g_flist", "g_init", "g_length"]


def layouts():
    q, t = [], []
    for e in ENTRIES:
        one = 0 if e in ("g_daeff", "g_flist", "g_effect") else 1
        q.append(Task(e, arg(one, layout=1), 40, LAYOUT1 % one))
        q.append(Task(e, arg(1, layout=2), 40, LAYOUT2 % 1))
        t.append(Task(e, arg(one + 1, layout=1), 60, LAYOUT1 % (one + 1), best=True))
        t.append(Task(e, arg(2, layout=2), 60, LAYOUT2 % 2, best=True))
    for e in ("g_domain", "g_problem"):
        q.append(Task(e + "_all", arg(0, layout=1, front=1), 60, "all sections at once in one fixed form, layout at one place after another, also in front"))
        t.append(Task(e, arg(0, layout=1, front=1), 60, LAYOUT1 % 0 + ", also in front", best=True))
        q.append(Task(e + "_all", arg(0, layout=2, front=1), 60, "all sections at once in one fixed form, at all places the same arbitrary layout, also in front"))
        q.append(Task(e + "_mask", arg(1, layout=2, front=1), 60, "every subset of the sections, at all places the same arbitrary layout, also in front"))
        t.append(Task(e, arg(0, layout=2, front=1), 60, LAYOUT2 % 0 + ", also in front", best=True))
        t.append(Task(e, arg(1, layout=1, front=1), 120, LAYOUT1 % 1 + ", also in front", best=True))
        t.append(Task(e + "_mask", arg(1, layout=1, front=1), 120, "every subset of the sections, layout at one place", best=True))
    return q, t


TOKENS = "every text of %d bytes (tab, CR, LF, printable ASCII)"
PROPS.update({
    "C08": prop(layouts(), outside="layout at two different places at once other than alike at all places; deeper nesting; characters that are not ASCII in comments"),
    "C09": prop((damaged("x_total", -1, range(5), 40) + damaged("x_total", -1, PARTS, 30) + damaged("x_total", 0, (8, 9, 10, 13, 14), 30, kind=BUTFEW)
                 + [Task("x_total", raw(5, n), 40, "every text of %d bytes (tab, CR, LF, printable ASCII), read as each of the 72 elements" % n, reach=(1, 3)) for n in (1, 2, 3, 4)]
                 + [Task("x_total", raw(6, 1), 40, "every beginning of a well-formed text of nesting -1 followed by one arbitrary byte", reach=()),
                    Task("x_total", raw(6, 2), 60, "every beginning of a well-formed text of nesting -1 followed by two arbitrary bytes", reach=())],
                 damaged("x_total", 0, range(5), 100, best=True) + damaged("x_total", 0, (11, 12), 100, kind=BUTFEW, best=True) +
                 [Task("x_total", raw(5, 5), 300, "every text of 5 bytes, read as each of the 72 elements", best=True),
                  Task("x_total", raw(6, 3), 120, "every beginning of a well-formed text of nesting -1 followed by three arbitrary bytes", reach=(), best=True),
                  Task("x_total", raw(6, 1, depth=0), 120, "every beginning of a well-formed text of nesting 0 followed by one arbitrary byte", reach=(), best=True)]),
                outside="texts of more than 5 arbitrary bytes that are not near a well-formed text; nesting so deep that the stack ends"),
    "C10": prop(([Task("v_expand", 0, 30, "any two of the 21 requirements"), Task("v_effective", 3, 60, "any list of up to 3 requirements, any way of making it")],
                 [Task("v_effective", 4, 200, "any list of up to 4 requirements", best=True)]), outside="lists of more than 4 requirements"),
    "C12": prop(([Task("t_names", 1 | 2 << 4 | 1 << 9, 60, "one name, likewise or of 8 to 300 characters with one arbitrary in it; all the types of symbol made of it in every way there is", kind=k) for k in ("interning", "plain")]
                 + [Task("t_names", 2 | 1 << 4 | 1 << 9, 60, "two names of 8 to 300 characters that differ in one character at most", kind=k) for k in ("interning", "plain")]
                 + [Task("t_names", 1 | 2 << 4, 40, "one name, of up to 2 arbitrary printable characters or near `object`, made in any of 9 ways", kind=k) for k in ("interning", "plain")]
                 + [Task("t_names", 2 | 2 << 4, 60, "two names, likewise", kind=k) for k in ("interning", "plain")]
                 + [Task("t_names", 1 | 2 << 4 | 1 << 8, 60, "3, 17, 64 or 100 names made in one of three orders, then one of up to 2 arbitrary characters", kind=k) for k in ("interning", "plain")],
                 [Task("t_names", 1 | 3 << 4 | 1 << 8, 150, "as the long histories of the quick check, a name of up to 3 arbitrary characters", kind=k, best=True) for k in ("interning", "plain")] +
                 [Task("t_names", 3 | 1 << 4, 150, "three names of up to 1 arbitrary character or near `object`", kind=k, best=True) for k in ("interning", "plain")]),
                outside="names made at the same time by several threads; more than three names of arbitrary text; longer arbitrary names"),
    "C13": prop(([Task("v_vocab", ANY | 0, 30, "any two words of each of the ten vocabularies"), Task("v_convert", 0, 30, "any operator, converted to and fro")]
                 + [Task("v_vocab", ANY | h, 30, "each word of the ten vocabularies, " + w, reach=()) for h, w in
                    ((1, "one byte replaced by any other"), (2, "any byte put in at any place"), (3, "one byte taken out"), (4, "cut off at any place"), (6, "one letter in upper case"))]
                 + [Task("v_vocab", ANY | 5 | n << 4, 40, TOKENS % n, reach=(2,)) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)],
                 [Task("v_vocab", ANY | 5 | n << 4, 100, TOKENS % n, reach=(2,), best=True) for n in (11, 13, 14, 15)]),
                outside="texts that are neither within one change of a word nor of up to 10 or of 12 bytes"),
    "C16": prop(([Task("t_token", n, 60, TOKENS % n + ", read as each of the kinds of name", reach=(1, 2)) for n in (1, 2, 3, 4, 5)]
                 + [Task("t_token", n | h << 4, 60, TOKENS % n + w, reach=()) for n, h, w in
                    ((3, 1, " behind a name"), (3, 2, " in front of a character outside ASCII"), (1, 3, " behind a character outside ASCII"), (4, 4, " behind a question mark"))]
                 + [Task("t_token", n | 5 << 4, 60, "a name or variable of 8 to 300 characters with one of them replaced by any other, and %d arbitrary bytes behind it" % n) for n in (0, 1)],
                 [Task("t_token", 6, 150, TOKENS % 6, best=True), Task("t_token", 7, 300, TOKENS % 7, best=True), Task("t_token", 5 | 1 << 4, 100, TOKENS % 5 + " behind a name", best=True)]),
                outside="longer texts; characters outside ASCII other than the five used"),
    "C19": prop(([Task("t_number", n, 60, TOKENS % n, reach=(1, 2)) for n in (2, 3, 4, 5)]
                 + [Task("t_number", n | 1 << 4, 60, "one of 8 beginnings, %d digits, one of 13 ends" % n) for n in (1, 2, 3)]
                 + [Task("t_number", 5 | 2 << 4, 60, "5 digits with a point anywhere"), Task("t_number", 3 | 3 << 4, 60, "numbers about the largest representable one", reach=(1, 3)), Task("t_number", 1 | 4 << 4, 60, "digits in the middle of two floats (19 beginnings, also with many zeros in front), up to 50 zeros and a digit behind them", reach=(1, 3))],
                 [Task("t_number", 6, 200, TOKENS % 6, best=True), Task("t_number", 3 | 4 << 4, 100, "as in the quick check, with three digits behind", best=True), Task("t_number", 6 | 2 << 4, 100, "6 digits with a point anywhere", best=True),
                  Task("t_number", 4 | 3 << 4, 100, "numbers about the largest representable one", best=True),
                  Task("t_number", 4 | 1 << 4, 100, "one of 8 beginnings, 4 digits, one of 13 ends", best=True)]),
                outside="longer texts that are not of the stated forms"),
    "C17": prop(([Task("x_build", raw(7, depth=-1), 30, WELL % -1 + "; its value rebuilt in three ways"), Task("x_build", raw(7, depth=0, kind=BUTFEW), 30, "the well-formed text of each of the 67 smaller elements with nesting 0; its value rebuilt in three ways"),
                  Task("x_build", raw(7, depth=1, kind=BUTFEW), 60, "likewise with nesting 1")] + modes("x_build"),
                 [Task("x_build", raw(7, depth=0), 200, WELL % 0 + "; its value rebuilt in three ways", best=True),
                  Task("x_build", raw(7, depth=2, kind=BUTFEW), 300, "the well-formed text of each of the 67 smaller elements with nesting 2", best=True),
                  Task("x_build", raw(7, depth=1), 300, WELL % 1, best=True)] + damaged("x_build", -1, PARTS, 40, best=True)),
                outside="values that no text gives; longer lists and deeper nesting than stated; `Domain::with_timeless` is checked through equality only, there being no accessor"),
    "C18": prop((damaged("x_refer", -1, range(5), 40) + damaged("x_refer", -1, PARTS, 40) + damaged("x_refer", 0, (1, 3, 4, 8, 9, 10, 13, 14), 40, kind=BUTFEW)
                 + [Task("x_refer", raw(7, depth=0, kind=BUTFEW), 30, "the well-formed text of each of the 67 smaller elements with nesting 0"),
                    Task("x_refer", raw(7, depth=-1), 30, WELL % -1, reach=(1,))]
                 + [Task("x_refer", raw(5, n), 40, TOKENS % n + ", read as each of the 72 elements", reach=(1, 2)) for n in (1, 2, 3, 4)],
                 damaged("x_refer", 0, (11, 12), 120, kind=BUTFEW, best=True) + damaged("x_refer", 0, (0, 2), 150, kind=BUTFEW, best=True)
                 + damaged("x_refer", 0, (8, 9, 10, 13, 14), 60, best=True) + damaged("x_refer", 1, (8, 10, 11), 120, kind=BUTFEW, best=True)
                 + [Task("x_refer", raw(5, 5), 300, TOKENS % 5 + ", read as each of the 72 elements", best=True)]),
                outside="texts that are neither within one change of a well-formed text of nesting 0 nor of up to 4 bytes; whether a text is well-formed is decided by harness/src/refer.rs; "
                "what words say that run into each other without a blank is left open"),
    "C20": prop((damaged("x_agree", -1, range(5), 60) + damaged("x_agree", -1, PARTS, 40) + damaged("x_agree", 0, (8, 9, 10, 13, 14), 30, kind=BUTFEW) + [Task("x_agree", raw(7, depth=0, kind=BUTFEW), 60, WELL67 % 0), Task("x_read", raw(7, depth=0), 30, WELL % 0), Task("x_read", raw(7, depth=1), 60, WELL % 1)] + modes("x_read") + modes("x_agree", 0)
                 + [Task("x_agree", raw(5, n), 40, TOKENS % n + ", read as each of the 72 elements") for n in (1, 2)],
                 damaged("x_agree", 0, range(5), 120, best=True) + [Task("x_agree", raw(7, depth=0), 60, WELL % 0, best=True)] + modes("x_agree", 2, best=True) + [Task("x_agree", raw(5, 3), 120, TOKENS % 3, best=True)]),
                outside="texts that are neither within one change of a well-formed one of nesting 0 nor of up to 3 bytes"),
    "C21": prop((damaged("x_equal", -1, range(5), 60) + damaged("x_equal", -1, PARTS, 40) + damaged("x_equal", 0, (8, 9, 10, 13, 14), 30, kind=BUTFEW)
                 + [Task("x_vary", raw(0, depth=0, kind=BUTFEW), 60, "the well-formed texts of each of the 67 smaller elements with nesting 0, and those that come of taking one choice of the grammar differently; names and numbers alike or not", reach=(1, 2)),
                    Task("x_vary", raw(0, depth=-1), 30, "likewise with nesting -1", reach=()),
                    Task("x_vary", raw(1, depth=0, kind=BUTFEW), 40, "the well-formed texts of each of the 67 smaller elements with nesting 0, and those with one name or number of another kind", reach=(2,)),
                    Task("x_vary", raw(1, depth=1, kind=BUTFEW), 50, "likewise with nesting 1", reach=(2,)),
                    Task("x_vary", raw(1, depth=-1, mode=2), 40, "well-formed texts of nesting -1 with one list of 4 to 65 elements, and those with one name or number of another kind", reach=()),
                    Task("x_vary", raw(0, depth=1, full=1, mode=3, kind=BUTFEW), 50, "the well-formed texts of nesting 1 in all places, where the innermost choices are among two, and those that come of taking one choice differently", reach=()),
                    Task("x_layout", raw(1, depth=-1), 40, WELL % -1 + ", and the same with any layout at one place"),
                    Task("x_layout", raw(2, depth=-1), 40, WELL % -1 + ", and the same with any layout, alike at all places")],
                 [Task("x_vary", raw(0, depth=0), 200, "likewise, all 72 elements", best=True), Task("x_vary", raw(0, depth=1, kind=BUTFEW), 300, "likewise with nesting 1", best=True),
                  Task("x_layout", raw(2, depth=0, kind=BUTFEW), 100, "likewise with nesting 0", best=True)] +
                 [Task("x_vary", raw(h, depth=0, mode=2, kind=BUTFEW), 100, "well-formed texts with one list of 4 to 65 elements, and those that differ in " + w, reach=(), best=True) for h, w in ((0, "one choice"), (1, "one name or number"))] +
                 damaged("x_equal", 0, (11,), 120, kind=BUTFEW, best=True) + damaged("x_equal", 0, range(5), 120, best=True) + damaged("x_equal", 1, range(5), 120, best=True)),
                outside="pairs of texts that differ in more than one place"),
})

ONE, TWO = "every 32-bit float", "every two 32-bit floats"
LAWS = {"construct": ONE, "construct64": "every 64-bit float", "refuse": ONE, "refuse_from": ONE, "refuse_from64": "every 64-bit float", "order": TWO, "hashed": TWO, "plain": TWO, "zero": "0 and -0"}
LAWS.update({i: "every %s and every 32-bit float" % i for i in ("i8", "u8", "i16", "u16", "i32", "u32")})
PROPS["C11"] = dict(kind="kani", laws=LAWS, outside="nothing of what the property says; that its laws make a total order is plain from the order of the floats",
                    note="Proved by Kani for all values of the argument types; trusted: Kani, CBMC, rustc's MIR. Counterexamples are replayed natively.")

# The crate's default is to keep the texts of names in one place ("interning"); these properties are decided for that build, C12 for both, the others without it.
for p in ("C16", "C17"):
    for t in PROPS[p]["quick"] + PROPS[p]["thorough"]:
        t.kind = "interning"
