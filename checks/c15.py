"""Manifests round-trip and malformed ones are rejected."""
import copy, json, os
import conf, vf
LEVEL = "model_checking"
TECHNIQUE = ("TLA+ grammar of the three manifest texts (TLC: every text reachable by two edits of a manifest, lenient readers refuted); model-generated texts, "
             "every truncation and every lost byte or line read by the real parsers, and real disk collections opened by edited texts, judged by the grammar")
NOTE = ("A snapshot manifest is a key=value text whose unknown lines are passed over by design; a text cut so that it is again a well-formed manifest cannot be told "
        "apart by the format and counts as that manifest. Size limits, links and special files are a fixed list.")


def corrupt(e):
    if e["op"] in ("seg", "col", "snap") and e["got"]["ok"]:
        c = copy.deepcopy(e)
        c["got"] = {"ok": False}
        return c


def csv(b):
    return ",".join(map(str, b)) or "-"


def damage(text):
    """Every prefix, every text with one byte or one line left out, every line doubled."""
    out, lines = [], []
    cur = []
    for c in text:
        cur.append(c)
        if c == 10:
            lines.append(cur)
            cur = []
    for k in range(len(text) + 1):
        out.append(text[:k])
    for k in range(len(text)):
        out.append(text[:k] + text[k + 1:])
    for k in range(len(lines)):
        out.append(sum(lines[:k] + lines[k + 1:], []))
        out.append(sum(lines[:k] + [lines[k]] + lines[k:], []))
    return out


def chunks(cmds, first=(), n=60):
    return [dict(head="", cmds=list(first) + cmds[i:i + n]) for i in range(0, len(cmds), n)]


SEG = b"version=1\nsegment_id=seg_00000012\nindex_type=disk_vamana\nmetric=COS\ndim=12\ncount=340\nids_file=ids.u64.bin\nvectors_file=v.bin\nx_a=1\nx_graph_file=g\n"
COL = b"version=1\ndim=128\nmetric=L2\nindex_type=disk_flat\nnext_segment_id=12\nsegment=seg_00000001\nsegment=seg_00000011\nx_max_pending_bytes=100\n"
CSV = b"version=1\ndim=128\nmetric=L2\nindex_type=disk_flat\nnext_segment_id=12\nsegments=seg_00000001,seg_00000002,seg_00000009\nx_a=b\n"
SNAP = b"format_version=1\nsnapshot_id=snapshot-1700\nreason=manual\napplied_through_op_id=9007\ncreated_unix_ms=1700\ngraph_file=g.bin\ndata_file=d.bin\nquant_file=\nrocksdb_dir=db\n"


def run(ck):
    T = ck.thorough
    for c in ("MCManifest.cfg",) + (("MCManifest_thorough.cfg",) if T else ()):
        vf.model_check(ck, "MCManifest", c, timeout=3000)
    for k, what in ((1, "the last of repeated entries counts"), (2, "numbers may have a tail"), (3, "file names may be paths")):
        vf.model_refutes(ck, "MCManifest", "MCManifest_bad%d.cfg" % k, what)
    exe = vf.build_exe("manifest", [os.path.join(vf.HARN, "cpp/manifest.cpp")])
    ex = conf.exe_runner(exe)
    go = lambda s, what: conf.conformance(ck, s, what, ex, "ManifestTrace", chunk=1500)
    for c, t in (("S", SEG), ("C", COL), ("C", CSV), ("N", SNAP)):
        go(chunks(["%s %s" % (c, csv(x)) for x in damage(list(t))]), "every cut and every lost byte or line (%s)" % c)
    go([dict(head="", cmds=["B size 130", "B size 1048575", "B size 1048576", "B size 1048577", "B size 3000000", "B link 200", "B dir 1"])], "file kinds and sizes")
    for k, kind in enumerate(("seg", "col", "snap")):
        g = vf.gen_behaviours("ManifestGen", "ManifestGen.cfg", num=500 if T else 30, depth=60, seed=ck.seed * 10 + k, env=dict(KIND=kind))
        runs = go(g, "edited texts (%s)" % kind)
        conf.binding_selftest(ck, runs, "ManifestTrace", corrupt)
    for k, (eng, met) in enumerate((("flat", "L2"), ("flat", "IP"), ("vamana", "L2"))):
        base = ex([dict(head="", cmds=["D %s %s" % (eng, met)])])[0][0][1][1]
        with vf.Scratch("base") as d:
            p = os.path.join(d, "b.json")
            with open(p, "w") as f:
                f.write(json.dumps(base) + "\n")
            env = dict(KIND="open", ENGINE=eng, METRIC=met, BASE=p)
            g = vf.gen_behaviours("ManifestGen", "ManifestGen.cfg", num=300 if T else 20, depth=50, seed=ck.seed * 10 + k, env=env)
        go(g, "collections opened by edited texts (%s, %s)" % (eng, met))
        if met == "L2":
            first = ["D %s %s" % (eng, met)]
            cmds = ["E %d %s" % (w, csv(x)) for w in (0, 1) for x in damage(base["texts"][w])]
            go(chunks(cmds, first), "collections opened by every cut text (%s)" % eng)
