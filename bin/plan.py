"""What each check does: the parts of the specification it uses and the driver runs it validates."""
import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(prop):
    """Findings recorded in KNOWN_FINDINGS: 'finding: property=ID tag=... match=... :: text'."""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        m = re.match(r"finding: property=(\S+) tag=\"([^\"]*)\" match=\"([^\"]*)\" :: (.*)", l)
        if m and m.group(1) == prop:
            out.append({"tag": m.group(2), "match": m.group(3), "text": m.group(4).strip()})
    return out


def trace(c):
    """Random models; decision tables of single splits; trees of all small shapes and numberings."""
    if c.prop in ("C01", "C03", "C04", "C06", "C12"):
        c.design("Convert", "ConvertTreesBig" if c.thorough() else "ConvertTrees")
    if c.prop == "C02":
        c.design("Bits", "Bits")
        if c.thorough():
            c.design("Bits", "BitsBig")
    d = c.build()
    c.validate(c.drive(d))
    if c.prop in ("C01", "C02", "C04", "C06"):
        gen = c.generate("GenSplits", "GenSplitsBig" if c.thorough() or c.prop != "C02" else "GenSplits")
        c.validate(c.drive(d, prop=c.prop + "split", gen=gen))
    if c.prop in ("C01", "C03", "C04", "C06", "C12", "C19"):
        gen = c.generate("GenTrees", "GenTreesBig" if c.thorough() else "GenTrees")
        c.validate(c.drive(d, prop=c.prop + "tree", gen=gen))
    if c.prop == "C19":
        histories(c, d)


def histories(c, d):
    """All short histories of views, predictions and refused calls."""
    gen = c.generate("GenHist", "GenHistBig" if c.thorough() else "GenHist")
    c.validate(c.drive(d, prop=c.prop + "hist", gen=gen))


def calls(c):
    gen = c.generate("GenCalls")
    c.validate(c.drive(c.build(), gen=gen))


def race(c, prop):
    """Driver scenarios under the race detector."""
    d = c.build(race=True)
    log = os.path.join(c.dir, "race")
    return c.drive(d, prop=prop, env={"VERIF_RACELOG": log, "GORACE": "log_path=%s exitcode=0 halt_on_error=0" % log})


def pool(c):
    c.design("Pool", "PoolBig" if c.thorough() else "Pool")
    gen = c.generate("GenSched", "GenSchedBig" if c.thorough() else "GenSched")
    c.validate(c.drive(c.build(), gen=gen), "PoolTrace")
    c.validate(race(c, "C08race"), "PoolTrace")


def headers(c):
    gen = c.generate("GenHeaders", "GenHeadersBig" if c.thorough() else "GenHeaders")
    c.validate(c.drive(c.build(), gen=gen), "HdrTrace")


def streams(c):
    c.design("Streams", "StreamsBig" if c.thorough() else "Streams")
    d = c.build()
    c.validate(c.drive(d), "StreamTrace")
    gen = c.generate("GenLoads", "GenLoadsBig" if c.thorough() else "GenLoads")
    c.validate(c.drive(d, prop="C15orders", gen=gen), "StreamTrace")
    c.validate(race(c, "C15race"), "StreamTrace")


def matrix(c):
    c.design("MatRead", "MatReadBig" if c.thorough() else "MatRead")
    gen = c.generate("GenMat", env={"PROP": c.prop})
    c.validate(c.drive(c.build(), gen=gen), "MatTrace")
    c.validate(race(c, c.prop + "race"), "MatTrace")


def pickles(c):
    graphs = c.generate("PickleGraphs", "PickleGraphsBig" if c.thorough() else "PickleGraphs")
    progs = c.generate("GenPickle", "GenPickleBig" if c.thorough() else "GenPickle")
    with open(graphs, "a") as f:
        f.write(open(progs).read())
    d = c.build()
    c.validate(c.drive(d, prop="C20vm", gen=graphs), "PickleTrace")
    c.validate(c.drive(d))


def damage(c):
    c.design("Convert", "ConvertBig" if c.thorough() else "Convert")
    gen = c.generate("GenDamage", "GenDamageBig" if c.thorough() else "GenDamage")
    c.validate(c.drive(c.build(), gen=gen), "DamageTrace")


def bodies(c):
    gen = c.generate("GenBodies", "GenBodiesBig")
    c.validate(c.drive(c.build(), gen=gen), "BodyTrace")


def utils(c):
    gen = c.generate("GenUtil", "GenUtilBig" if c.thorough() else "GenUtil")
    c.validate(c.drive(c.build(more=",verifutil"), gen=gen), "UtilTrace")


def pure(c):
    d = c.build()
    c.validate(c.drive(d))
    histories(c, d)
    c.validate(c.drive(d, prop="C09conc"))
    c.validate(race(c, "C09race"))


TRACE = "TLA+ specification (spec/Leaves.tla) + TLC trace validation of recorded library runs"
COMMON = ["the host is amd64 (int32 conversions of out-of-range floats)",
          "numbers are multiples of 1/8 (scores) or of 1/4 give or take a few units in the last place (features, thresholds), so that reference sums are exact"]


def P(run, rule, note, technique=TRACE, level="model_checking", assumptions=()):
    return {"run": run, "rule": rule, "note": note, "technique": technique, "level": level, "assumptions": COMMON + list(assumptions)}


MODELS = "Each scenario writes a random source model in a random legal layout of its format, loads it and predicts rows chosen around its thresholds, categories and special values (NaN, infinities, +-0, around 1e-35, int32 limits); "
COUNT = " An evaluation is one predicted row (or one other call); distinct_nontrivial counts the distinct recorded events (scenario starts, sources and notes excluded)."

TABLE = " Then TLC enumerates the decision table of a single split (GenSplits: kinds and settings of the split x thresholds or sets x values)."
TREES = " Then TLC enumerates every tree of up to 3 (thorough: 4) splits in every numbering of its nodes and leaves (GenTrees), each with rows for all combinations of sides."
HISTS = " Then TLC enumerates every short history of views, predictions and refused calls (GenHist)."

PLANS = {
    "C01": P(trace, MODELS + "also trees of 70,000 leaves, models of 131,000 and of 2^24 features; TLC computes every raw score from the source model." + TABLE + TREES + COUNT,
             "Exact comparison with the reference semantics: all splits over a table of values, all trees of up to 3 (thorough: 4) splits in all numberings, thousands of random models; the loader's conversion is model checked."),
    "C02": P(trace, MODELS + "most splits are categorical with 1..95+ words of categories, some with categories in the millions." + TABLE + COUNT,
             "Exact comparison with the reference semantics: all sets over the word boundaries against all values around them; bit set storage model checked."),
    "C03": P(trace, MODELS + "each model is loaded from two text layouts and two JSON dumps; scores and leaf numbers must be identical for every n." + TREES + COUNT,
             "Bit-identical results between layouts; all small trees in all numberings in both forms."),
    "C04": P(trace, MODELS + "gbtree and dart; also of 131,000 and of 2^24 features." + TABLE + TREES + COUNT, "Exact comparison with the reference semantics: all splits over a table of values, all small trees in all node orders, random models."),
    "C05": P(trace, MODELS + "gblinear, dense and sparse rows, any n." + COUNT, "Exact comparison with the reference semantics."),
    "C06": P(trace, MODELS + "pickles of many memo styles." + TABLE + TREES + COUNT, "Exact comparison with the reference semantics: all splits over a table of values, all small trees in all node orders, random models."),
    "C07": P(trace, MODELS + "the same rows go through every entry point, thread numbers -7..1000, batches of 1..130 rows and GOMAXPROCS 1..8." + COUNT,
             "Bit-identical rows across entry points."),
    "C08": P(pool, "TLC checks the worker pool (spec/Pool.tla) against the abstract promise (spec/RowPool.tla), safety and termination, and enumerates every order in which workers can begin and end up to 4 (thorough: 5) batches; a hook in the library records begin and end of every row evaluation and steers the workers along these orders; TLC validates the recorded histories against RowPool. Further calls run unsteered and under the race detector. An evaluation is one recorded event; distinct_nontrivial counts distinct ones.",
             "Pool model checked exhaustively for small sizes; recorded histories of the real pool along all batch-level orders of up to 4 batches are histories of the model.",
             technique="TLC model checking of the worker pool + replay of TLC-enumerated schedules into the library + TLC trace validation"),
    "C09": P(pure, MODELS + "histories of legal and refused calls on several models and views, outputs prefilled and of excess length; also made at the same time from many goroutines, with and without the race detector." + HISTS + COUNT,
             "Every result is a function of (model, view, n, row); input and cells beyond the results stay as they were."),
    "C10": P(calls, "TLC enumerates every shape of a prediction call (entry point, rows, width, estimators, threads, lengths of input and output); the driver makes an eighth of them (thorough: all) on each kind of model and view, outputs prefilled with sentinels." + COUNT,
             "Refusal, untouched output and acceptance are compared for every enumerated shape; TLC also checks that refusal is monotone."),
    "C11": P(trace, MODELS + "every n from 1 to NEstimators and values outside, against the model truncated to n." + COUNT,
             "Bit-identical to the truncated model, absolute scores for trees with at most one split."),
    "C12": P(trace, MODELS + "raw scores for every n give each tree's contribution; the leaf numbers must stand for them." + TREES + COUNT,
             "LightGBM: the file's leaf number; others: consistent, injective numbering within range."),
    "C13": P(trace, MODELS + "objectives of every kind; the raw score (a multiple of 1/8) must be the one that the transformed output stands for, give or take rounding errors of the function; scores all along the curves, where digits run out too; the package's transformations on their own." + COUNT,
             "Transformed outputs are checked up to about 1e-9 relative error, near one up to a few units in the last place."),
    "C14": P(headers, "TLC enumerates headers: every format, 1 and 3 classes, every objective, transformation wanted or not, with every single deviation of a header field and (for a plain objective) every pair (thorough: every triple); the driver writes and loads each file, TLC compares with what spec/Headers.tla says. An evaluation is one loaded header.",
             "Exhaustive over the enumerated header space.", technique="TLC-enumerated headers replayed into the loaders + TLC trace validation"),
    "C15": P(streams, "random models of every format in random layouts; the stream ends at every byte (text: every line boundary) and fails at every byte (large files: a sample that includes the places around the last required byte), in several ways; complete streams are chunked in many ways, loaded from a file too; TLC enumerates the orders in which the streams of several loads deliver, which real loads then follow; further loads run at the same time under the race detector. TLC works out the needed bytes from the recorded segments and judges every cut. An evaluation is one sweep of one file; its `runs' give the cuts.",
             "Every cut of small files; the model of segmented reading is checked exhaustively.", level="fault_enumeration",
             technique="TLC-checked stream model + fault enumeration replayed into the loaders + TLC trace validation"),
    "C16": P(trace, MODELS + "sparse rows of random patterns, orders and offsets against the dense rows they stand for." + COUNT,
             "Bit-identical to the dense row."),
    "C17": P(matrix, "TLC checks the reading machine (spec/MatRead.tla) against what spec/MatText.tla declares and enumerates every small document with every small limit; the driver renders each with random delimiters, spellings of numbers, line ends and ways of delivering the bytes, reads it, and reads random greater documents; TLC compares cell by cell. Random matrices (any bits but NaN) are written, to writers that fail too, and read back. An evaluation is one reading, writing or conversion.",
             "All small documents, random greater ones; values are compared bit by bit.", technique="TLC-checked reader model + TLC-enumerated documents replayed into the readers + TLC trace validation"),
    "C18": P(matrix, "as C17, for libsvm documents read as dense and as sparse matrices, and conversions of arrays. An evaluation is one reading or conversion.",
             "All small documents, random greater ones; values are compared bit by bit.", technique="TLC-checked reader model + TLC-enumerated documents replayed into the readers + TLC trace validation"),
    "C19": P(trace, MODELS + "all metadata of the model and of nested views, before and after use." + TREES + HISTS + COUNT,
             "Exact comparison with the source model, all small trees and short histories of views included."),
    "C20": P(pickles, "TLC runs every short program of the pickle machine (spec/PickleVM.tla) and pickles every small object graph, shared and cyclic ones included, in every memo style (spec/PickleGraphs.tla, where it checks that running the pickle rebuilds the graph); the driver renders these programs, mutants of them and random greater ones with random contents and escapes and has the library decode them; TLC compares the object graphs. Models pickled in many styles are loaded and must predict as the source model. An evaluation is one decoded pickle or predicted row.",
             "All short programs and small object graphs; contents are compared byte by byte.", technique="TLC-checked pickle machine + TLC-enumerated programs replayed into the decoder + TLC trace validation"),
    "C21": P(damage, "TLC enumerates every way to set the references of small trees and a catalogue of structural defects, with what must become of each (spec/Damage.tla); the driver writes, loads and uses them, then greater trees with changed references, then files of every format damaged at random (bits, bytes, words, tokens, lines, JSON values, pickle operations; cuts and splices). What loads must predict through every entry point and view. An evaluation is one file or one sweep (its n files).",
             "All references of small trees; a catalogue of structural defects; some 80,000 random damages.", level="fault_enumeration",
             technique="TLC-enumerated damage replayed into the loaders + random damage sweeps + TLC trace validation"),
    "C22": P(bodies, "TLC enumerates every deviation of a field (or of one number of its list, of one value, attribute, array) of LightGBM's text and JSON trees and of scikit-learn's objects, and every pair of them, with what must become of the file (spec/Bodies.tla: types and needs of the fields); the driver makes them in random models with trees of every kind, loads the files and compares what loads with the intact model's scores; TLC compares with the verdicts. An evaluation is one file.",
             "All single deviations of the catalogue many times over, pairs (quick: a sixth of them, thorough: all).", level="fault_enumeration",
             technique="TLC-enumerated deviations of tree descriptions replayed into the loaders + TLC trace validation"),
    "C23": P(utils, "TLC enumerates all texts of up to 4 (thorough: 5) lines, all lists of up to 2 (thorough: 3) spellings of numbers, all sets over the borders of words and all short pairs of slices; the driver hands each, and random greater ones, to the functions of package util; TLC compares with what spec/Util.tla says. An evaluation is one call.",
             "All short inputs of a catalogue, random greater ones; exact comparison.", technique="TLC-enumerated inputs replayed into the helpers + TLC trace validation"),
}
NA = {}
