"""The updatable disk index maps labels to their newest vectors."""
import diskann, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ model of the index as a map with neighbour lists: insertion, removal, reconnection and reachability explored exhaustively on small graphs, four wrong designs refuted; "
             "model-generated histories of the real index (also with failing devices) judged event by event: answers, slots, counts, and the whole graph as stored")
NOTE = ("Vectors have integer components, so distances are exact. Completeness of a search is judged against the nodes reachable from the entry point in the stored lists, "
        "while the beam covers the index. io_uring and libaio are replaced by stand-ins that finish requests in arbitrary order and can fail them.")


def run(ck):
    T = ck.thorough
    vf.model_check(ck, "MCDiskGraph", "MCDiskGraph%s.cfg" % ("_thorough" if T else ""), timeout=900)
    for k, what in ((1, "a new node that met nobody is left without edges to it"), (2, "not linking back to the new node"),
                    (3, "the safety net drops live edges too"), (4, "reconnecting without going round removed nodes")):
        vf.model_refutes(ck, "MCDiskGraph", "MCDiskGraph_bad%d.cfg" % k, what)
    diskann.histories(ck, (("plain", 1500, 24), ("plain", 200, 80), ("fault", 900, 24)) if not T else
                      (("plain", 12000, 24), ("plain", 2500, 80), ("plain", 300, 250), ("fault", 9000, 24), ("fault", 1500, 60)), diskann.DropEdge())
