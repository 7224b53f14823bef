"""Small programs that use bags, and whether they have to compile.

A program is the body of a function that makes a few things, captures and takes steps, and in the
end keeps, sends or goes on using the last of them. For everything in it we know

    hard    what it may look into, so that it mustn't outlive it
    soft    what else its type may be tied to

A program mustn't compile when something would be used after what it may look into is
gone, or would reach a thread that it mustn't. It has to compile when nothing it uses
is tied to anything that's gone. Otherwise either will do.
"""

MUST, MUST_NOT, EITHER = "has to compile", "mustn't compile", "may compile"


class Tape:
    """A list of choices; what's missing is 0"""

    def __init__(self, tape):
        self.tape, self.at = tape, 0

    def pick(self, n):
        v = self.tape[self.at] if self.at < len(self.tape) else 0
        self.at += 1
        return v % n

    def of(self, items):
        return items[self.pick(len(items))]


class Thing:
    def __init__(self, name, kind, hard=(), soft=(), holds="", fresh=None):
        self.name, self.kind = name, kind
        self.hard, self.soft = frozenset(hard), frozenset(soft) | frozenset(hard)
        # what may be reached through it that isn't for other threads: `s` isn't for
        # being sent, `y` isn't for being looked at
        self.holds = holds
        self.fresh = fresh


SOURCES = [
    # constructor, type, what it isn't for
    ("plain()", "Plain", ""),
    ("text()", "String", ""),
    ("7u64", "u64", ""),
    ("7u128", "u128", ""),
    ("celled()", "Celled", "y"),
    ("counted()", "Counted", "sy"),
    ("guarded()", "Guarded", "s"),
]
KEEP = "{{ let mut k = %s(None); let _ = {0}.visit(&mut k); k.0 }}"
STREAM = "{{ let mut s = Streamed(None); let _ = %s(&{0}, &mut s); s.0 }}"
ONES = ("Plain", "Celled", "Counted", "Guarded", "Lent")


def captures(features):
    """(features, types, code, how it's captured)"""
    every = ONES + ("String", "u64", "u128")
    static = tuple(t for t in every if t != "Lent")
    fr = ONES[:4]
    return [
        c
        for c in [
            ("", every, "ValueBag::from_debug(&{0})", "ref"),
            ("", static, "ValueBag::capture_debug(&{0})", "ref"),
            ("", every, "ValueBag::from_display(&{0})", "ref"),
            ("", static, "ValueBag::capture_display(&{0})", "ref"),
            ("", every, "ValueBag::from_dyn_debug(&{0})", "ref"),
            ("", every, "ValueBag::from_dyn_display(&{0})", "ref"),
            ("", every, "ValueBag::from(&{0} as &dyn std::fmt::Debug)", "ref"),
            ("", every, "ValueBag::from(&{0} as &dyn std::fmt::Display)", "ref"),
            ("", ONES, "ValueBag::from_fill(&{0})", "ref"),
            ("", ("String",), "ValueBag::from({0}.as_str())", "ref"),
            ("", ("String",), "ValueBag::from_str(&{0})", "ref"),
            ("", ("String",), "ValueBag::from_option(Some({0}.as_str()))", "ref"),
            ("std", ("String",), "ValueBag::from(&{0})", "ref"),
            ("", ("u64",), "ValueBag::from({0})", "none"),
            ("", ("u64",), "ValueBag::from_u64({0})", "none"),
            ("", ("u64",), "ValueBag::from(&{0})", "maybe"),
            ("", ("u128",), "ValueBag::from(&{0})", "wide"),
            ("", ("u128",), "ValueBag::from_u128_ref(&{0})", "wide"),
            ("", ("u64", "u128"), "ValueBag::try_capture(&{0}).unwrap()", "maybe"),
            ("owned", ("u64",), "ValueBag::try_capture_owned(&{0}).unwrap()", "none"),
            ("", (), "ValueBag::empty()", "none"),
            ("", (), 'ValueBag::from("text")', "none"),
            ("error", fr, "ValueBag::capture_error(&{0})", "ref"),
            ("error", fr, "ValueBag::from_dyn_error(&{0})", "ref"),
            ("serde1", ONES + ("u64",), "ValueBag::from_serde1(&{0})", "ref"),
            ("serde1", fr, "ValueBag::capture_serde1(&{0})", "ref"),
            ("sval2", ONES + ("u64",), "ValueBag::from_sval2(&{0})", "ref"),
            ("sval2", fr, "ValueBag::capture_sval2(&{0})", "ref"),
            ("sval2", ONES, "ValueBag::from_dyn_sval2(&{0})", "ref"),
            ("seq", ("Numbers",), "ValueBag::from_seq_slice(&{0})", "ref"),
            ("seq,alloc", ("Texts",), "ValueBag::from(&{0})", "ref"),
            ("owned", fr, "ValueBag::capture_shared_debug({1})", "moved"),
            ("owned", fr, "ValueBag::capture_shared_display({1})", "moved"),
            ("owned,error", fr, "ValueBag::capture_shared_error({1})", "moved"),
            ("owned,serde1", fr, "ValueBag::capture_shared_serde1({1})", "moved"),
            ("owned,sval2", fr, "ValueBag::capture_shared_sval2({1})", "moved"),
            ("owned,seq", ("Numbers",), "ValueBag::capture_shared_seq_slice({1})", "moved"),
            ("owned", ("Lent",), "ValueBag::capture_shared_debug(Lent({0}.0))", "into"),
            ("owned", ("Lent",), "ValueBag::capture_shared_display(Lent({0}.0))", "into"),
            ("owned", ("Owned",), "ValueBag::from(&{0})", "ref"),
            ("owned", ("Owned",), "{0}.by_ref()", "ref"),
            ("", ("Bag",), "ValueBag::from_debug(&{0})", "ref"),
            ("", ("Bag",), "ValueBag::from_display(&{0})", "ref"),
            ("serde1", ("Bag",), "ValueBag::from_serde1(&{0})", "ref"),
            ("sval2", ("Bag",), "ValueBag::from_sval2(&{0})", "ref"),
            ("owned", ("Owned",), "ValueBag::from_debug(&{0})", "ref"),
            ("owned", ("Owned",), "ValueBag::capture_display(&{0})", "ref"),
        ]
        if has(features, c[0])
    ]


def has(features, wanted):
    return all(w in features for w in wanted.split(",") if w)


def steps(features):
    """(features, from, code, to, what it's tied to)

    `same` is tied to what the one before is tied to; `self` maybe to that one too;
    `held` looks into that one where bags can hold things; `new` to nothing
    """
    return [
        s
        for s in [
            ("", "Bag", "{0}.by_ref()", "Bag", "self"),
            ("", "Bag", "{0}.clone()", "Bag", "same"),
            ("owned", "Bag", "{0}.to_owned()", "Owned", "new"),
            ("owned", "Bag", "{0}.to_shared()", "Owned", "new"),
            ("owned", "Owned", "{0}.clone()", "Owned", "new"),
            ("owned", "Owned", "{0}.clone().into_shared()", "Owned", "new"),
            ("owned", "Owned", "{0}.by_ref()", "Bag", "held"),
            ("owned", "Owned", "ValueBag::from(&{0})", "Bag", "held"),
            ("", "Bag", "{0}.to_borrowed_str()", "Out", "same"),
            ("", "Bag", "<&str>::try_from({0}.clone())", "Out", "same"),
            ("", "Bag", KEEP % "Keep", "Out", "same"),
            ("std", "Bag", "{0}.to_str()", "Out", "same"),
            ("error", "Bag", "{0}.to_borrowed_error()", "Out", "same"),
            ("error", "Bag", KEEP % "KeepError", "Out", "same"),
            ("sval2", "Bag", STREAM % "ValueRef::stream_ref", "Out", "same"),
            ("sval2", "Bag", STREAM % "Value::stream", "Out", "self"),
            ("sval2,owned", "Owned", STREAM % "Value::stream", "Out", "held"),
            ("seq", "Bag", "{0}.to_borrowed_str_seq::<Vec<_>>()", "Out", "same"),
            ("seq,std", "Bag", "{0}.to_str_seq::<Vec<_>>()", "Out", "same"),
            ("", "Bag", "{0}.downcast_ref::<Plain>()", "Out", "held"),
            ("", "Bag", "[{0}.clone(), ValueBag::from(\"text\")]", "Out", "same"),
            ("", "Bag", "{0}.to_u64()", "Out", "new"),
            ("", "Bag", "{0}.is::<Plain>()", "Out", "new"),
            ("", "Bag", "{0}.to_string()", "Out", "new"),
            ("seq", "Bag", "{0}.to_u64_seq::<Vec<_>>()", "Out", "new"),
            ("std", "Bag", "String::try_from({0}.clone())", "Out", "new"),
            ("test", "Bag", "{0}.to_test_token()", "Out", "new"),
        ]
        if has(features, s[0])
    ]


def fills(code):
    return [
        "let f = |slot: Slot| {",
        "    let s = text();",
        "    %s" % code,
        "};",
        "touch(&ValueBag::from_fill(&f).to_u64());",
    ]


def visitor(kept, method, arg):
    return [
        "struct K<'v>(Option<%s>, std::marker::PhantomData<&'v ()>);" % kept,
        "impl<'v> Visit<'v> for K<'v> {",
        "    fn visit_any(&mut self, %s: ValueBag) -> Result<(), BagError> {" % ("v" if method == "any" else "_"),
        *(["        self.0 = Some(v);"] if method == "any" else []),
        "        Ok(())",
        "    }",
        *(
            []
            if method == "any"
            else [
                "    fn visit_%s(&mut self, v: %s) -> Result<(), BagError> {" % (method, arg),
                "        self.0 = Some(v);",
                "        Ok(())",
                "    }",
            ]
        ),
        "}",
        "let s = text();",
        "let mut k = K(None, std::marker::PhantomData);",
        "let _ = ValueBag::from_debug(&s).visit(&mut k);",
        "touch(&k.0);",
    ]


ERROR = "(dyn std::error::Error + 'static)"
# What code that's called by a bag may do with what it's given
CALLED = [
    # features, code, verdict
    ("", fills("slot.fill_any(7u64)"), MUST),
    ("", fills("slot.fill_any(\"text\")"), MUST),
    ("", fills("slot.fill_any(s.as_str())"), MUST_NOT),
    ("", fills("slot.fill_any(ValueBag::from_debug(&s))"), MUST_NOT),
    ("", fills("slot.fill_any(ValueBag::from(s.as_str()))"), MUST_NOT),
    ("", fills("slot.fill_debug(&s)"), MUST),
    ("", fills("slot.fill_debug(s)"), MUST),
    ("", fills("slot.fill_display(&s)"), MUST),
    ("", fills("slot.fill_display(Lent(&s))"), MUST),
    ("error", fills("slot.fill_error(plain())"), MUST),
    ("error", fills("slot.fill_dyn_error(&plain())"), MUST),
    ("serde1", fills("slot.fill_serde1(Lent(&s))"), MUST),
    ("sval2", fills("slot.fill_sval2(Lent(&s))"), MUST),
    ("seq", fills("slot.fill_seq_slice(&[s])"), EITHER),
    ("owned", fills("slot.fill_any(ValueBag::capture_shared_debug(plain()))"), MUST),
    ("owned", fills("slot.fill_any(ValueBag::from_debug(&s).to_owned().by_ref())"), MUST_NOT),
    ("", visitor("ValueBag<'v>", "any", None), MUST_NOT),
    ("", visitor("&'v str", "str", "&str"), MUST_NOT),
    ("", visitor("&'v str", "borrowed_str", "&'v str"), MUST),
    ("error", visitor("&'v " + ERROR, "error", "&" + ERROR), MUST_NOT),
    ("error", visitor("&'v " + ERROR, "borrowed_error", "&'v " + ERROR), MUST),
]

NUMBERS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"]
WIDE = ["u128", "i128"]


def literal(t):
    return {"f32": "1.5f32", "f64": "1.5f64", "bool": "true", "char": "'a'", "&str": '"text"'}.get(t) or "7" + t


def let(code, t="ValueBag<'static>"):
    return ["let v: %s = %s;" % (t, code), "touch(&v);"]


def conversions():
    """Programs that convert, into a bag and out of one"""
    rows = []
    for t in NUMBERS + ["bool", "char"]:
        rows += [
            ("", let("ValueBag::from(%s)" % literal(t)), MUST),
            ("", let("ValueBag::from(Some(%s))" % literal(t)), MUST),
            ("", let("ValueBag::from_option(None::<%s>)" % t), MUST),
            ("", let("%s.into()" % literal(t)), MUST),
            # it's a copy
            ("", ["let v = { let x = %s; ValueBag::from(&x) };" % literal(t), "touch(&v);"], MUST),
        ]
    for t in NUMBERS + WIDE + ["bool", "char", "&str"]:
        if t != "f32":
            rows.append(("", let("%s::try_from(ValueBag::from(7u64))" % ("<&str>" if t == "&str" else t), "Result<_, BagError>"), MUST))
        rows += [
            ("seq", let("ValueBag::from(&[%s])" % literal(t)), MUST),
            ("seq", let("ValueBag::from(Some(&[%s]))" % literal(t)), MUST),
            ("seq", ["let x = [%s]; let y = &x[..];" % literal(t), "touch(&ValueBag::from(&y));", "touch(&ValueBag::from(Some(&y)));"], MUST),
            ("seq", ["let x = [%s]; let y = &x[..];" % literal(t), "touch(&ValueBag::from_seq_slice(&y));"], MUST),
            ("seq", ["let x = [%s];" % literal(t), "touch(&ValueBag::from_seq_slice(&x));"], MUST),
        ]
        if t != "&str":
            rows += [
                ("seq,alloc", ["let x = vec![%s];" % literal(t), "touch(&ValueBag::from(&x));", "touch(&ValueBag::from(Some(&x)));"], MUST),
            ]
    for t in WIDE:
        rows += [
            ("", let("ValueBag::from(&%s)" % literal(t)), MUST),
            ("", let("ValueBag::from_%s_ref(&%s)" % (t, literal(t))), MUST),
            ("inline-i128", let("ValueBag::from(%s)" % literal(t)), MUST),
            ("inline-i128", ["let v = { let x = %s; ValueBag::from(&x) };" % literal(t), "touch(&v);"], MUST),
        ]
    rows += [
        ("", let("ValueBag::from(())"), MUST),
        ("", let("ValueBag::from(&())"), MUST),
        ("", let("ValueBag::from(Some(\"text\"))"), MUST),
        ("", let("ValueBag::from(&\"text\")"), MUST),
        ("alloc", ["let x = Cow::Borrowed(\"text\");", "touch(&ValueBag::from(&x));"], MUST),
        ("alloc", let("String::try_from(ValueBag::from(\"text\"))", "Result<String, BagError>"), MUST),
        ("alloc", let("Cow::try_from(ValueBag::from(\"text\"))", "Result<Cow<'static, str>, BagError>"), MUST),
        ("seq,alloc", ["let x = texts();", "touch(&ValueBag::from(&x));", "touch(&ValueBag::from(Some(&x)));"], MUST),
    ]
    dyns = [("", "std::fmt::Debug"), ("", "std::fmt::Display"), ("error", "std::error::Error")]
    for fs, d in dyns:
        one = ["let p = plain();", "let x: &%s = &p;" % ("(dyn %s + 'static)" % d if fs == "error" else "dyn " + d)]
        rows += [
            (fs, one + ["touch(&ValueBag::from(x));"], MUST),
            (fs, one + ["touch(&ValueBag::from(&x));"], MUST),
            (fs, one + ["touch(&ValueBag::from(Some(x)));"], MUST),
        ]
    rows += [
        ("error", let("<&%s>::try_from(ValueBag::from(7u64))" % ERROR, "Result<_, BagError>"), MUST),
        ("", let("BagError::from(std::fmt::Error)", "BagError"), MUST),
        ("", let("BagError::msg(\"text\")", "BagError"), MUST),
        ("std", let("BagError::boxed(plain())", "BagError"), MUST),
        ("std", let("BagError::boxed(\"text\")", "BagError"), MUST),
        ("std", ["let e = std::io::Error::from(std::io::ErrorKind::Other);"] + let("BagError::from(e)", "BagError"), MUST),
        ("std", ["let e: Box<dyn std::error::Error + Send + Sync> = Box::new(BagError::msg(\"text\"));", "touch(&e);"], MUST),
        ("", ["fn f() -> Result<(), BagError> {", "    Err(std::fmt::Error)?", "}"], MUST),
        ("", ["send(BagError::msg(\"text\"));", "sync(&BagError::msg(\"text\"));", "forever(BagError::msg(\"text\"));"], MUST),
    ]
    return rows


def constants():
    """Programs with bags that are constants"""
    rows = [("", "ValueBag::from_%s(%s)" % (t, literal(t))) for t in NUMBERS + ["bool", "char"]]
    rows += [("", "ValueBag::from_%s_ref(&%s)" % (t, literal(t))) for t in WIDE]
    rows += [("inline-i128", "ValueBag::from_%s(%s)" % (t, literal(t))) for t in WIDE]
    rows += [
        ("", "ValueBag::empty()"),
        ("", 'ValueBag::from_str("text")'),
        ("", "ValueBag::from_debug(&7u64)"),
        ("", "ValueBag::from_display(&7u64)"),
        ("", "ValueBag::from_dyn_debug(&7u64)"),
        ("", "ValueBag::from_dyn_display(&7u64)"),
        ("", "ValueBag::from_fill(&Lent(\"text\"))"),
        ("sval2", "ValueBag::from_sval2(&7u64)"),
        ("sval2", "ValueBag::from_dyn_sval2(&7u64)"),
        ("serde1", "ValueBag::from_serde1(&7u64)"),
        ("error", "ValueBag::from_dyn_error(&std::fmt::Error)"),
    ]
    made = [(fs, ["const C: ValueBag<'static> = %s;" % c, "touch(&C);"], MUST) for fs, c in rows]
    made += [
        (fs, ["const C: &ValueBag<'static> = &%s;" % c, "const R: ValueBag<'static> = C.by_ref();", "touch(&R);"], MUST)
        for fs, c in rows
    ]
    return made


def methods():
    """Programs that ask a bag for something"""
    rows = []
    for t in ["u64", "i64", "u128", "i128", "f64", "bool", "char"]:
        rows += [("", let("ValueBag::from(7u64).to_%s()" % t, "Option<%s>" % t), MUST)]
        rows += [("seq", let("ValueBag::from(7u64).to_%s_seq()" % t, "Option<Vec<Option<%s>>>" % t), MUST)]
        if t not in ("f64", "bool", "char"):
            # whatever can be extended and made from nothing will do
            rows += [("seq", let("ValueBag::from(7u64).to_%s_seq()" % t, "Option<std::collections::BTreeSet<Option<%s>>>" % t), MUST)]
    rows += [
        ("", let("ValueBag::from(\"text\").to_borrowed_str()", "Option<&'static str>"), MUST),
        ("alloc", let("ValueBag::from(\"text\").to_str()", "Option<Cow<'static, str>>"), MUST),
        ("", let("ValueBag::from(\"text\").is_empty()", "bool"), MUST),
        ("", let("ValueBag::from(\"text\").is::<u64>()", "bool"), MUST),
        ("seq", let("ValueBag::from(7u64).to_borrowed_str_seq()", "Option<Vec<Option<&'static str>>>"), MUST),
        ("seq,alloc", let("ValueBag::from(7u64).to_str_seq()", "Option<Vec<Option<Cow<'static, str>>>>"), MUST),
        ("error", let("ValueBag::from(7u64).to_borrowed_error()", "Option<&'static %s>" % ERROR), MUST),
        ("owned", let("ValueBag::from(7u64).to_owned()", "OwnedValueBag"), MUST),
        ("owned", let("ValueBag::from(7u64).to_shared()", "OwnedValueBag"), MUST),
        ("owned", let("ValueBag::from(7u64).to_owned().into_shared()", "OwnedValueBag"), MUST),
    ]
    return rows


CLONES = "fn f<T: Clone + std::fmt::Debug + std::fmt::Display>(t: &T) { touch(t) }"
SERIALIZES = "fn f<T: Serialize>(t: &T) { touch(t) }"
STREAMS = "fn f<T: Value>(t: &T) { touch(t) }"
# What bags are
KINDS = [
    ("", [CLONES, "f(&ValueBag::from(7u64));"], MUST),
    ("owned", [CLONES, "f(&ValueBag::from(7u64).to_owned());"], MUST),
    ("serde1", [SERIALIZES, "f(&ValueBag::from(7u64));"], MUST),
    ("serde1,owned", [SERIALIZES, "f(&ValueBag::from(7u64).to_owned());"], MUST),
    ("sval2", [STREAMS, "f(&ValueBag::from(7u64));"], MUST),
    ("sval2,owned", [STREAMS, "f(&ValueBag::from(7u64).to_owned());"], MUST),
    # a bag may be taken for one of something shorter
    ("", ["fn f<'a, 'b: 'a>(v: ValueBag<'b>) -> ValueBag<'a> {", "    v", "}"], MUST),
    ("", ["fn f<'a, 'b: 'a>(v: ValueBag<'a>) -> ValueBag<'b> {", "    v", "}"], MUST_NOT),
    ("", ["fn f<'a>(v: &'a ValueBag<'static>, w: ValueBag<'a>) -> [ValueBag<'a>; 2] {", "    [v.clone(), w]", "}"], MUST),
    ("", ["fn f<'a>(v: &ValueBag<'a>) -> ValueBag<'a> {", "    v.clone()", "}"], MUST),
    ("", ["fn f<'a>(v: &'a ValueBag) -> ValueBag<'a> {", "    v.by_ref()", "}"], MUST),
    ("", ["fn f<'a>(v: &ValueBag<'a>) -> Option<&'a str> {", "    v.to_borrowed_str()", "}"], MUST),
    ("", ["fn f<'a>(v: &'a ValueBag) -> Option<&'static str> {", "    v.to_borrowed_str()", "}"], MUST_NOT),
    ("", ["fn f<'a>(v: ValueBag<'a>) -> Option<&'a u64> {", "    v.downcast_ref::<u64>()", "}"], EITHER),
    ("", ["fn f<'a>(v: &'a ValueBag<'a>) -> Option<&'a u64> {", "    v.downcast_ref::<u64>()", "}"], MUST),
    ("owned", ["fn f(v: &OwnedValueBag) -> ValueBag {", "    v.by_ref()", "}"], MUST),
    ("owned", ["fn f(v: &OwnedValueBag) -> ValueBag<'static> {", "    v.by_ref()", "}"], MUST_NOT),
    ("owned", ["fn f(v: ValueBag) -> OwnedValueBag {", "    v.to_owned()", "}"], MUST),
    ("owned", ["fn f(v: ValueBag) -> OwnedValueBag {", "    v.to_shared()", "}"], MUST),
    ("owned", ["fn f() {", "    static S: std::sync::Mutex<Option<OwnedValueBag>> = std::sync::Mutex::new(None);", "    *S.lock().unwrap() = Some(ValueBag::from(7u64).to_owned());", "}"], MUST),
    # visitors and fillers
    ("", ["fn f<'v>(b: &ValueBag<'v>, v: &mut dyn Visit<'v>) {", "    let _ = b.visit(v);", "}"], MUST),
    ("", ["fn f<'v, V: Visit<'v>>(b: &ValueBag<'v>, mut v: V) {", "    let _ = b.visit(&mut v);", "    let _ = b.visit(v);", "}"], MUST),
    ("", ["fn f(v: &dyn Fill) {", "    touch(&ValueBag::from_fill(&|slot: Slot| v.fill(slot)));", "}"], MUST),
    ("", ["fn f(slot: Slot) -> Result<(), BagError> {", "    slot.fill_any(true)", "}", "touch(&ValueBag::from_fill(&(f as fn(Slot) -> _)));"], EITHER),
    ("", ["fn f(slot: Slot) {", "    let _ = slot.fill_any(1u8);", "    let _ = slot.fill_any(2u8);", "}"], MUST_NOT),
]
OTHERS = conversions() + constants() + methods() + KINDS


def program(tape, features):
    """The lines of a function, and whether it has to compile"""
    t = Tape(tape)
    way = t.pick(24)
    if way >= 22:
        _, body, verdict = t.of([c for c in (CALLED if way == 23 else OTHERS) if has(features, c[0])])
        return body, verdict
    lines, things = [], []
    bad = ""

    def add(kind, code, hard=(), soft=(), holds="", fresh=None):
        x = Thing("v%d" % len(things), kind, hard, soft, holds, fresh)
        things.append(x)
        lines.append("let mut %s = %s;" % (x.name, code))
        return x

    # what there is to capture
    caps = captures(features)
    for _ in range(1 + t.pick(2)):
        n = t.pick(len(SOURCES) + 3)
        if n < len(SOURCES):
            code, kind, holds = SOURCES[n]
            add(kind, code, holds=holds, fresh=code)
        elif n == len(SOURCES):
            s = add("String", "text()", fresh="text()")
            add("Lent", "Lent(&%s)" % s.name, [s.name], fresh='Lent("text")')
        elif n == len(SOURCES) + 1:
            add("Numbers", "numbers()", fresh="numbers()")
        else:
            add("Texts", "texts()", fresh="texts()")

    def capture(of):
        nonlocal bad
        rows = [c for c in caps if of.kind in c[1]]
        if of.kind not in ("Bag", "Owned"):
            rows += [c for c in caps if not c[1]]
        _, _, code, tied = t.of(rows)
        code = code.format(of.name, of.fresh)
        hard, soft, holds = set(of.hard), set(of.soft), of.holds
        if tied == "ref" or (tied == "wide" and "inline-i128" not in features):
            hard.add(of.name)
            # it's looked at from wherever the bag is
            holds = "sy" if "y" in holds else ""
        elif tied in ("maybe", "wide"):
            soft.add(of.name)
        elif tied == "none":
            hard, soft, holds = set(), set(), ""
        elif tied == "moved":
            hard, soft = set(), set()
            # what's shared may be looked at, and dropped, on any thread
            if holds:
                bad, holds = "yes", "sy"
        elif tied == "into":
            bad = "yes"
        return add("Bag", code, hard, soft, holds, "ValueBag::empty()")

    x = capture(t.of([x for x in things if any(x.kind in c[1] for c in caps)] or things))
    table = steps(features)
    for _ in range(t.pick(6)):
        if x.kind == "Out":
            break
        if t.pick(6) == 5:
            x = capture(x)
            continue
        _, _, code, to, tied = t.of([s for s in table if s[1] == x.kind])
        hard, soft, holds = set(x.hard), set(x.soft), x.holds
        if tied == "self":
            soft.add(x.name)
        elif tied == "held":
            if x.kind == "Owned" or "owned" in features:
                hard.add(x.name)
            soft.add(x.name)
        elif tied == "new":
            hard, soft = set(), set()
            # a copy shares what was shared, and holds nothing otherwise
            holds = holds if bad else ""
        x = add(to, code.format(x.name), hard, soft, holds, "ValueBag::empty()" if to == "Bag" else None)

    # and what happens in the end
    names = [y.name for y in things]
    end = t.pick(6)
    if end <= 1:
        at = t.pick(len(things))
        gone = set(names[at:])
        body = lines[:at] + ["let out;", "{"] + ["    " + l for l in lines[at:]]
        body += ["    out = %s;" % x.name, "}", "touch(&out);"]
        verdict = MUST_NOT if x.hard & gone else EITHER if bad or x.soft & gone else MUST
    elif end == 2:
        body = lines + ["forever(%s);" % x.name]
        verdict = MUST_NOT if x.hard else EITHER if bad or x.soft else MUST
    elif end == 3:
        how = t.of(["send({0});", "sync(&{0});", "std::thread::spawn(move || touch(&{0}));"])
        body = lines + [how.format(x.name)]
        verdict = EITHER
        if x.kind in ("Bag", "Owned") and (("y" in x.holds) if "sync" in how else ("s" in x.holds)):
            verdict = MUST_NOT
        elif x.kind == "Owned" and not bad:
            verdict = MUST
        elif "spawn" in how and x.hard:
            verdict = MUST_NOT
    elif end == 4:
        y = t.of(things)
        body = lines + ["drop(%s);" % y.name, "touch(&%s);" % x.name]
        # numbers and what's lent are copied
        moves = y.kind not in ("u64", "u128", "Out")
        verdict = EITHER
        if moves and y.name in x.hard:
            verdict = MUST_NOT
        elif y is not x and not bad and not any(y.name in z.soft for z in things):
            verdict = MUST
    else:
        y = t.of([y for y in things if y.fresh])
        body = lines + ["%s = %s;" % (y.name, y.fresh), "touch(&%s);" % x.name]
        verdict = EITHER
        if y.name in x.hard:
            verdict = MUST_NOT
        elif not bad and not any(y.name in z.soft for z in things):
            verdict = MUST
    return body, verdict
