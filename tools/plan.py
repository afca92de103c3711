"""What each check runs: the bounded models (module, constants, invariants),
how many events are recorded from the real library in each of 8 processes
(`drive`), and what the result rests on.  `deep` replaces entries of a model
in the thorough tier, `more` adds models there."""
LEVEL = "model_checking"

PLACING = {"append", "append_all", "insert", "remove", "remove_element", "set_text", "clear_children"}
ADDING = {"new", "build", "append", "append_all", "insert", "set_text"}
BULK = {"remove_by", "remove_elements", "remove_by_name", "remove_all", "remove_all_elements"}
# a crash in one of these is a violation of the property itself (C01: any)
FOCUS_OPS = {
    "C01": set(), "C02": {"parse"}, "C03": {"parse"}, "C04": {"roundtrip"},
    "C05": {"escape", "attr_escape", "text_escape", "unescape", "laws"},
    "C06": {"parse", "names"}, "C07": ADDING, "C08": PLACING, "C09": ADDING | {"parse", "concat"}, "C10": BULK,
    "C11": {"query", "mark"}, "C12": {"new", "leaf", "set_content", "set_attr", "parse"}, "C13": {"ser", "doc_ser"},
    "C14": {"stream", "sink", "fs_write", "fs_read"}, "C15": {"eq", "doc_eq", "clone"},
    "C16": {"decl_default", "parse", "doc_new", "doc_full", "set_decl", "set_dtds", "set_dtd", "doc_ser", "decl_from_str", "dtd_from_string"},
    "C17": {"kind", "text"}, "C18": {"set_attr", "remove_attr", "get_attr", "clear_attrs"},
    "C19": {"locate"}, "C20": {"cmp", "pro_cmp"}, "C21": {"why"},
}

def escape(d=3, dd=4): return dict(module="MCEscape", const="Depth=%d" % d, inv="Inverses CleanOut Shrinks", deep=dict(const="Depth=%d" % dd))
REFS = dict(module="MCRefs", const="Chunk=0 Chunks=0", inv="OneChar Untouched")
ALLREFS = dict(module="MCRefs", const="Chunk=512 Chunks=2176")
def parse(alpha, d=2, dd=3): return dict(module="MCParse", const='Depth=%d Alpha="%s"' % (d, alpha), inv="Agree DocLaws", deep=dict(const='Depth=%d Alpha="%s"' % (dd, alpha)))
MUTATE = dict(module="MCMutate", const='NDocs=8 Kinds={"cut","ins","drop","swap"}', inv="ProperPrefix Whole")
def ns(): return dict(module="MCNs", const="MaxElems=3 Rich=FALSE", inv="Lexical", deep=dict(const="MaxElems=3 Rich=TRUE"))
def edit(palette, kids=3, kk=4): return dict(module="MCEdit", const='MaxKids=%d Palette="%s"' % (kids, palette), view="ViewSt", constraint="Bounded",
                                       inv="Frame", prop="Normal Positional", deep=dict(const='MaxKids=%d Palette="%s"' % (kk, palette)))
def shape(palette, inv, n=3, nn=4): return dict(module="MCShape", const='MaxNodes=%d Palette="%s"' % (n, palette), inv=inv, deep=dict(const='MaxNodes=%d Palette="%s"' % (nn, palette)))
def names(mode): return dict(module="MCName", const='Mode="%s" From=1 To=0 Step=1' % mode, inv="Table")
def allnames(mode): return dict(module="MCName", const='Mode="%s" From=0 To=1114111 Step=256' % mode, inv="Table")
ORDER = dict(module="MCOrder", const="Depth=3 NKeys=6", inv="OrderFree DeclsFirst", deep=dict(const="Depth=4 NKeys=6"))
def pair(palette, n=2, nn=3): return dict(module="MCPair", spec="PSpec", const='MaxNodes=%d Palette="%s"' % (n, palette), inv="Differ", deep=dict(const='MaxNodes=%d Palette="%s"' % (nn, palette)))
ATTACH = dict(module="MCAttach", const="Rich=FALSE", inv="AsIfParsed OldKeep OwnKeep", deep=dict(const="Rich=TRUE"))
MOVE = dict(module="MCMove", spec="MSpec", const="Rich=FALSE Kinds=3", inv="FreshLexical KeptResolved", deep=dict(const="Rich=FALSE Kinds=9"))
ATTR = dict(module="MCAttr", const="NKeys=3 NVals=3", view="ViewMap", inv="MapAgrees OthersSame", deep=dict(const="NKeys=5 NVals=3"))
CONTENT = dict(module="MCContent", const="Depth=2", inv="Exact", deep=dict(const="Depth=3"))
PROLOG = dict(module="MCProlog", const="Depth=2 NParts=6", view="ViewPro", inv="Kept Written", deep=dict(const="Depth=2 NParts=11"))
def seq(n=5, nn=6, many=4): return dict(module="MCSeq", spec="RowSpec", const='MaxNodes=1 Palette="plain" MaxLen=%d Many=%d' % (n, many), inv="RemoveExact NthElement",
                           deep=dict(const='MaxNodes=1 Palette="plain" MaxLen=%d Many=%d' % (nn, many)))
MIXED = dict(module="MCMixed", spec="XSpec", const="Rich=FALSE Before1=2 Handed=3", inv="MixedAsParsed", deep=dict(const="Rich=FALSE Before1=3 Handed=3"))
DOCPAIR = dict(module="MCDocPair", const="MaxDtds=2", inv="Exactly", deep=dict(const="MaxDtds=3"))
BIG = dict(module="MCBig", const="Sizes={17,33,65,100,130,260} Long={65,130,260,515,1030,4100,8200,66000}", inv="AsWritten",
           deep=dict(const="Sizes={15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,511,513,1025} Long={63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2049,4095,4096,4097,8191,8192,8193,16385,32769,65535,65536,65537}"))
WHERE = dict(module="MCWhere", spec="WSpec", const="Depth=1", inv="Found", deep=dict(const="Depth=3"))
WHY = dict(module="MCWhy", const="MaxCh=3", inv="Told AsDone", deep=dict(const="MaxCh=5"))
JOIN = dict(module="MCJoin", const="MaxParts=2", inv="Together", deep=dict(const="MaxParts=3"))
AGAIN = dict(module="MCAgain", const="Stems=2", inv="Alone", deep=dict(const="Stems=5"))
def place(n=27, nn=12): return dict(module="MCPlace", const="Depth=2 NUnits=%d" % n, inv="Through", deep=dict(const="Depth=3 NUnits=%d" % nn))
COMPARE = dict(module="MCCompare", const="Len2=2", inv="Ordered")
def io(mode, depth, dd, wide="FALSE"): return dict(module="MCIo", const='Mode="%s" Depth=%d Wide=FALSE' % (mode, depth), view="ViewFs", inv="TreeLike WriteLaw Utf8Law",
                                   deep=dict(const='Mode="%s" Depth=%d Wide=TRUE' % (mode, dd)))

COMMON = ["TLC, the CommunityModules and the JSON reading of them are right",
          "the harness (/verif/harness) reports what the library returned and what its accessors say of the tree"]
def P(models, drive, assumes=(), more=(), **kw): return dict(models=models, drive=drive, assumes=list(assumes) + COMMON, more=list(more), **kw)

PARSED = ["U+1680 (a blank and a name character at once) is not generated: known finding"]
PLAN = {
    "C01": P([MUTATE, escape(2, 4), REFS, parse("structural"), parse("content"), parse("prologue"), place(), BIG], 1200, ["nesting depth within the stack (known finding)"], [ALLREFS]),
    "C02": P([parse("structural"), parse("content"), parse("prologue"), MUTATE, names("text"), place(), BIG], 500, PARSED, [allnames("text")]),
    "C03": P([parse("structural"), parse("content"), MUTATE, ns(), place(), BIG], 500, PARSED + ["blank runs between tags are dropped (known finding)"]),
    "C04": P([shape("plain", "RoundLaw", 2, 3), shape("attrs", "RoundLaw", 2, 3), shape("texts", "RoundLaw", 2, 3), shape("other", "RoundLaw", 2, 3), place(16), BIG], 1500),
    "C05": P([escape(), REFS, BIG], 3000, ["numeric references are hexadecimal (known finding)"], [ALLREFS]),
    "C06": P([ns(), parse("structural"), MUTATE, place(), BIG], 1500, PARSED),
    "C07": P([ATTACH, MOVE, MIXED, place(), BIG], 1500, ["namespaces declared with set_attr() after the element was built are not considered (known finding)",
                               "an element that belongs to no tree remembers the prefixes of its former place (model deviation Detached)"]),
    "C08": P([edit("small"), edit("other", 2, 3), seq(5), BIG], 2500),
    "C09": P([edit("text"), edit("small", 2, 4), seq(5), JOIN, BIG], 2500),
    "C10": P([shape("plain", "RemovalExact"), shape("other", "RemovalExact", 2, 3), seq(5), BIG], 2500),
    "C11": P([shape("plain", "QueriesExact ChildQueries MutAgree", 2, 3), shape("other", "QueriesExact ChildQueries MutAgree", 2, 3), seq(5), BIG], 2500),
    "C12": P([names("api"), CONTENT, AGAIN, BIG], 3000, [], [allnames("api")]),
    "C13": P([shape("plain", "LayoutExact BadIndents"), shape("attrs", "LayoutExact BadIndents", 2, 3), shape("texts", "LayoutExact BadIndents", 2, 3), ORDER, seq(4), place(), BIG], 2000),
    "C14": P([io("fs", 2, 3), io("stream", 1, 1), io("utf8", 2, 4), io("sink", 1, 1), place(16), BIG], 300,
             ["directories and files of a scratch directory stand for the file system; /dev/full for a device without space"]),
    "C15": P([pair("plain"), pair("attrs"), pair("texts"), DOCPAIR, place(), BIG], 2000),
    "C16": P([PROLOG, dict(MUTATE), parse("prologue"), place(), BIG], 800, ["a leading <?xml-...?> instruction passes for the declaration (leniency)"]),
    "C17": P([shape("plain", "TextExact"), shape("texts", "TextExact", 2, 3), seq(5), place(), BIG], 2500),
    "C18": P([ATTR, place(), BIG], 3000),
    "C19": P([WHERE, MUTATE, parse("structural"), place(), BIG], 1000, PARSED + ["the position is read from the message (\"line N, column M\")",
             "input that ends too early and names refused by the element itself need not name a position"]),
    "C20": P([COMPARE, pair("attrs"), pair("plain"), pair("texts"), BIG], 2000),
    "C21": P([WHY, WHERE, MUTATE, parse("structural"), place(), BIG], 1500, PARSED + ["where several things are wrong with one construct any of their kinds is right",
             "indices below 2^31"]),
}
