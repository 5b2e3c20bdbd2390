"""The updatable disk index reopens as it was flushed."""
import diskann, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the places a record can be in (hot copies, overrides, write cache, file) and of flushing and opening, explored exhaustively, five wrong designs refuted; "
             "model-generated histories of the real index with frequent flush, close and reopening under different cache settings judged by the model")
NOTE = "A close without a flush loses what was not flushed; only flushed states are reopened. Crashes during a flush are not covered: the index makes no promise there."


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCDiskFlush", "MCDiskFlush%s.cfg" % ("_thorough" if T else ""), timeout=900)
    for k, what in ((1, "not saving the hot copies"), (2, "dropping overrides before the pages are written"), (3, "not saving the labels"),
                    (4, "not saving the released slots"), (5, "not writing dirty pages")):
        vf.model_refutes(ck, "MCDiskFlush", "MCDiskFlush_bad%d.cfg" % k, what)
    diskann.histories(ck, (("open", 1500, 30), ("open", 200, 100)) if not T else (("open", 14000, 30), ("open", 3000, 100), ("open", 300, 300)))
