"""Jobs per property.  hints: loop bound per function (or per loop) below/above the default."""
CORE = ["src/evfs.c", "src/evfs_path.c", "src/util/range_strings.c", "src/util/glob.c"]
TOK = {"strncpy": 18, "evfs_vfs_path_normalize": 5, "path_normalize_long": 5}

PROPS = {
 "C01": {"jobs": [
   dict(name="sep", src="path_norm.c", repo=CORE, defs=["N=6", "MODE=0"], unwind=9, hints=TOK, checks=["pointer"]),
   dict(name="inplace", src="path_norm.c", repo=CORE, defs=["N=6", "MODE=1"], unwind=9, hints=TOK, checks=["pointer"]),
   dict(name="tight", src="path_norm.c", repo=CORE, defs=["N=6", "MODE=2"], unwind=11, hints=TOK, checks=["pointer"]),
   dict(name="dos", src="path_norm.c", repo=CORE, defs=["N=6", "MODE=1", "DOS"], unwind=9, hints=TOK, checks=["pointer"]),
 ]},
}

NORM = ["evfs_vfs_path_normalize"]
PATHF = NORM + ["evfs_vfs_path_absolute", "evfs_vfs_path_join", "evfs_vfs_path_join_str"]
PATHS = PATHF + ["strlcpy"]
MM = {"memmove": "vp_memmove"}
def absj(name, mode, n, cw, *extra, **kw):
    d = dict(name=name, src="path_abs.c", repo=CORE, defs=["N=%d" % n, "CW=%d" % cw, "MODE=%d" % mode, "PS_CAP=%d" % (n+cw+6), "VP_MM=%d" % (n+cw+6)] + list(extra),
             unwind=n+cw+9, rename=MM, replace=NORM, hints={"vp_memmove": n+cw+7}, checks=["pointer"])
    d.update(kw)
    return d
PROPS["C02"] = {"jobs": [
  absj("ample", 0, 4, 3, "VP_MALLOC_CAP=16"), absj("cwderr", 0, 4, 3, "CWERR", "VP_MALLOC_CAP=16"), absj("tight", 1, 4, 3, "VP_MALLOC_CAP=16"),
  absj("heap", 1, 2, 2),
  absj("overlap", 2, 2, 2, "OFF=0", "AT=0", "VP_MALLOC_CAP=16", unwind=24), absj("overlap2", 2, 1, 1, "OFF=2", "VP_MALLOC_CAP=16", unwind=22),
]}
JAIL = CORE + ["src/util/bsd_string.c"]
JMAX = {"EVFS_MAX_PATH": "24"}
JD = ["VP_TYPED", "STUB", "PS_CAP=16", "VP_MM=25"]
JH = {"strncpy": 26, "strcmp": 6, "vp_memmove": 26}
_ops = {"open":1,"stat":2,"delete":3,"rename":4,"mkdir":5,"opendir":6,"chdir":7}

def jail(exact):
    out = []
    for o, k in _ops.items():
        for cn, c in (("", None), ("-sub", "/a/b"), ("-dots", "/../c/.")):
            if cn and o in ("delete", "mkdir"): continue
            d = ["N=%d" % (6 if o == "rename" else 7), "OP=%d" % k] + JD + (["EXACT"] if exact else [])
            if c: d.append('CWD="%s"' % c)
            out.append(dict(name=o+cn, src="jail.c", repo=JAIL, inc=["src"], defs=d, unwind=18, cfg=JMAX, hints=JH, rename=MM, replace=PATHS, checks=["none"] if exact else ["pointer"]))
    for o, k in _ops.items():
        d = ["N=%d" % (6 if o == "rename" else 8), "OP=%d" % k, "TIGHT"] + JD[:2] + ["PS_CAP=16", "VP_MM=10"] + (["EXACT"] if exact else [])
        out.append(dict(name=o+"-tight", src="jail.c", repo=JAIL, inc=["src"], defs=d, unwind=18, cfg={"EVFS_MAX_PATH": "9"}, hints=JH, rename=MM, replace=PATHS, checks=["none"] if exact else ["pointer"]))
    return out
PROPS["C04"] = {"jobs": jail(False)}
PROPS["C05"] = {"jobs": jail(True)}

PROPS["C29"] = {"jobs": [dict(name=n, src="bsd.c", repo=["src/util/bsd_string.c"], defs=["N=%d" % 7, "FN=%d" % k], unwind=12, checks=["pointer"]) for k, n in enumerate(["strlcpy", "strlcat", "strxcpy"])]}
PROPS["C30"] = {"solver": "race", "jobs": [dict(name=n, src="search.c", repo=["src/util/search.c"], defs=["N=5", "FN=%d" % k], thorough={"defs": ["N=9", "FN=%d" % k], "unwind": 12}, unwind=9, checks=["pointer"]) for k, n in enumerate(["exact", "nearest", "above", "below"])]}
RSRC = ["src/util/range_strings.c", "src/util/intmath.c"]
_sb = {"cat_str": 0, "cat_str_no_nul": 1, "cat_range": 2, "cat_range_no_nul": 3, "cat_char": 4, "cat_fmt": 5, "cat_vfmt": 6, "copy_str": 8, "pad": 9}
PROPS["C24"] = {"jobs": [dict(name=n, src="strbuild.c", repo=RSRC, defs=["N=5", "FN=%d" % k, "VP_FMT=10"], unwind=12, checks=["pointer"], optional_reach=["too long"] if k == 4 else []) for n, k in _sb.items()]}
PROPS["C25"] = {"solver": "race", "jobs": [dict(name="token", src="token.c", repo=RSRC, defs=["N=6", "FN=0"], unwind=9, timeout=100, checks=["pointer"], thorough={"defs": ["N=9", "FN=0"], "unwind": 12})] +
  [dict(name="limit%d" % l, src="token.c", repo=RSRC, defs=["N=6", "FN=1", "LEN=%d" % l], unwind=9, checks=["pointer"], optional_reach=["two tokens"] if l == 1 else []) for l in (1, 3, 6)] +
  [dict(name="trim", src="token.c", repo=RSRC, defs=["N=6", "FN=2"], unwind=9, checks=["pointer"], thorough={"defs": ["N=10", "FN=2"], "unwind": 13}),
   dict(name="compare", src="token.c", repo=RSRC, defs=["N=6", "FN=3"], unwind=9, checks=["pointer"], thorough={"defs": ["N=10", "FN=3"], "unwind": 13})]}
GLOB = ["src/util/glob.c"]
PROPS["C26"] = {"solver": "race", "jobs": [
  dict(name="plain", src="glob.c", repo=GLOB, defs=["NP=4", "NS=4", "NOSET"], unwind=9, hints={"glob_match": 26, "parse_range_def": 1}, checks=["pointer"], optional_reach=["malformed"]),
  dict(name="sets", src="glob.c", repo=GLOB, defs=["NP=4", "NS=2", "SPAN=4"], unwind=9, hints={"glob_match": 10}, checks=["pointer"], thorough={"defs": ["NP=5", "NS=2", "SPAN=4"]}),
  dict(name="member", src="glob.c", repo=GLOB, defs=["NP=6", "NS=1", "SPAN=4", "ONESET"], unwind=9, hints={"glob_match": 4}, checks=["pointer"]),
  dict(name="edge127", src="glob.c", repo=GLOB, defs=["NP=5", "NS=1", "SPAN=4", "PAT=127"], unwind=9, hints={"glob_match": 4}, checks=["pointer"], optional_reach=["match", "no match", "malformed"]),
  dict(name="edge255", src="glob.c", repo=GLOB, defs=["NP=5", "NS=1", "SPAN=4", "PAT=255"], unwind=9, hints={"glob_match": 4}, checks=["pointer"], optional_reach=["match", "no match", "malformed"]),
]}
_ps = {"basename": (0, 7), "extname": (1, 7), "dirname": (2, 7), "join": (3, 4), "join-inplace": (4, 4), "join-str": (5, 4)}
PROPS["C03"] = {"solver": "race", "jobs": [dict(name=n, src="pathsplit.c", repo=CORE, defs=["N=%d" % N, "FN=%d" % k], unwind=2*N+8 if k > 2 else N+3, checks=["pointer"],
   thorough={"defs": ["N=%d" % (N+3), "FN=%d" % k], "unwind": 2*N+14 if k > 2 else N+6}) for n, (k, N) in _ps.items()]}
PROPS["C34"] = {"jobs": [
  dict(name="vfs-ops", src="core.c", repo=CORE, inc=["src"], defs=["PART=0"], unwind=8, checks=["pointer"], optional_reach=["alloc failed"]),
  dict(name="file-ops", src="core.c", repo=CORE, defs=["PART=1"], unwind=8, checks=["pointer"]),
  dict(name="names", src="core.c", repo=CORE, defs=["PART=2"], unwind=34, checks=["pointer"]),
  dict(name="paths-nofs", src="core.c", repo=CORE, defs=["PART=3", "REG=0"], unwind=20, checks=["pointer"]),
  dict(name="paths-null", src="core.c", repo=CORE, defs=["PART=3", "REG=1"], unwind=20, object_bits=11, checks=["pointer"]),
]}
PROPS["C20"] = {"jobs": [
  dict(name="caller-buffer", src="copy.c", repo=CORE, defs=["N=6", "BUF=4"], unwind=9, hints={"evfs_copy_to_file_ex": 8}, checks=["pointer"], thorough={"defs": ["N=7", "BUF=5"], "unwind": 11, "hints": {"evfs_copy_to_file_ex": 9}}),
  dict(name="own-buffer", src="copy.c", repo=CORE, defs=["N=5", "BUF=70", "HEAP"], unwind=8, hints={"evfs_copy_to_file_ex": 7}, checks=["pointer"]),
]}
PROPS["C21"] = {"jobs": [
  dict(name="string", src="mkpath.c", repo=CORE, defs=["N=5", "VP_MALLOC_CAP=16"], unwind=11, checks=["pointer"], optional_reach=["two made"]),
  dict(name="range", src="mkpath.c", repo=CORE, defs=["N=5", "RANGE", "VP_MALLOC_CAP=16"], unwind=11, checks=["pointer"], optional_reach=["two made"]),
] + [dict(name="heap-%s%d" % (w.lower() or "str", l), src="mkpath.c", repo=CORE, defs=["N=4", "LEN=%d" % l] + ([w] if w else []), unwind=10, checks=["pointer"], optional_reach=["two made", "created", "file in the way"]) for w in ("RANGE",) for l in (1, 4)
]}
PROPS["C23"] = {"jobs": [dict(name=n, src="shimops.c", repo=CORE+["src/util/bsd_string.c"], inc=["src"], defs=["SHIM=0", "PART=%d" % k], unwind=36, replace=["evfs__vmprintf"], checks=["pointer"]) for k, n in enumerate(["vfs-ops", "file-ops", "dir-ops"])]}
PROPS["C05"]["jobs"] += [dict(name=n, src="shimops.c", repo=JAIL, inc=["src"], defs=["SHIM=1", "PART=%d" % k, "VP_MM=25"], unwind=18, cfg=JMAX, hints=JH, rename=MM, replace=PATHF + ["evfs__vmprintf"], checks=["pointer"]) for k, n in ((1, "file-handle"), (2, "dir-handle"))]
PROPS["C27"] = {"jobs": [dict(name="find", src="find.c", repo=CORE, defs=["K=5"], unwind=9, replace=["glob_match"], checks=["pointer"], thorough={"defs": ["K=9"], "unwind": 13})]}
PROPS["C17"] = {"jobs": [dict(name="history", src="registry.c", repo=CORE, defs=["K=5"], unwind=5, hints={"harness": 9}, fp={"m_vfs_ctrl": ["r_ctrl", "default__vfs_ctrl"]}, checks=["pointer"], thorough={"defs": ["K=7"]})]}
def _m(pre, names): return {"m_" + n: [pre + n] for n in names}
_FM = ["ctrl", "close", "read", "write", "truncate", "sync", "size", "seek", "tell", "eof"]
ROTFP = {"m_close": ["b_close"], "m_read": ["b_read", "bd_read"], "m_write": ["b_write"], "m_truncate": ["b_trunc"], "m_sync": ["b_sync"], "m_size": ["b_size"], "m_seek": ["b_seek"], "m_tell": ["b_tell"], "m_eof": ["b_eof"], "m_ctrl": ["b_ctrl"],
  "m_open": ["b_open"], "m_stat": ["b_stat"], "m_delete": ["b_delete"], "m_make_dir": ["b_mkdir"], "m_open_dir": ["b_opendir"]}
ROTFH = dict(_m("rotate__file_", _FM), m_open=["rotate__open"], m_delete=["rotate__delete"], m_stat=["rotate__stat"])
ROTR = ["evfs_vfs_open", "evfs_file_close", "evfs_vfs_open_dir", "evfs_dir_close", "evfs_vfs_path_join_str", "glob_match"]
def rot(name, part, n, c, *extra, **kw):
    d = dict(name=name, src="rotate.c", repo=CORE, inc=["src"], defs=["PART=%d" % part, "NC=%d" % n, "CS=%d" % c] + list(extra), unwind=20, cfg={"EVFS_MAX_PATH": "24"}, replace=ROTR, hints={"discover_chunk_sequence": n+2, "evfs_dir_find": 3, "rotate__file_write": 6, "rotate__file_read": 4}, fp=ROTFP, fph=ROTFH,
             checks=["pointer"])
    d.update(kw)
    return d
SFM = dict(_m("stdio__file_", _FM))
SFP = dict(SFM, **{"m_" + n: ["stdio__" + n] for n in ("open", "stat", "delete", "rename", "make_dir", "open_dir", "get_cur_dir", "set_cur_dir", "vfs_ctrl")})
SFH = dict(SFP, m_close=["stdio__file_close", "stdio__dir_close"], m_rewind=["stdio__dir_rewind"])
def stdio(name, part, *extra, **kw):
    d = dict(name=name, src="stdio.c", repo=CORE, inc=["src"], defs=["PART=%d" % part] + list(extra), unwind=8, checks=["pointer"], fph=dict(SFH, m_read=["stdio__dir_read"] if part == 3 else ["stdio__file_read"], m_close=["stdio__dir_close"] if part == 2 else ["stdio__file_close"]))
    d.update(kw)
    return d
PROPS["C33"] = {"jobs": [stdio("open-flags", 0), stdio("file-ops", 1), stdio("vfs-ops", 2), stdio("listing", 3)]}
PROPS["C22"] = {"jobs": [stdio("stdio", 4)]}
FFH = dict(_m("fatfs__file_", _FM), **{"m_" + n: ["fatfs__" + n] for n in ("open", "stat", "delete", "rename", "make_dir", "open_dir", "get_cur_dir", "set_cur_dir", "vfs_ctrl")})
FFD = dict(FFH, m_read=["fatfs__dir_read"], m_close=["fatfs__dir_close"], m_rewind=["fatfs__dir_rewind"])
def fatfs(name, part, *extra, **kw):
    d = dict(name=name, src="fatfs.c", repo=CORE, inc=["src", "libraries/fatfs/source"], defs=["PART=%d" % part] + list(extra), unwind=8, checks=["pointer"], fp=FFH, fph=FFD if part == 3 else FFH)
    d.update(kw)
    return d
PROPS["C31"] = {"jobs": [fatfs("open", 0), fatfs("file-ops", 1), fatfs("vfs-ops", 2), fatfs("directories", 3), fatfs("block-device", 5)]}
PROPS["C22"]["jobs"] += [fatfs("fatfs", 4)]
import os
DHFP = {"gen_hash": ["h_hash"], "is_equal": ["h_equal"], "destroy_item": ["h_destroy"]}
ANY = ["storage too small", "refused", "replaced", "removed", "looked up"]
DHSUB = {"src/util/dhash.c": [(r"uintptr_t\s+value_obj\[\]", "uintptr_t value_obj[(VS+7)/8]"), (r"sizeof\(dhBucketEntry\)", "offsetof(dhBucketEntry, value_obj)")]}
def dh(name, *defs, **kw):
    d = dict(name=name, src="dhash.c", repo=["src/util/dhash.c", "src/util/search.c"], hinc=["dhprime"], defs=list(defs) + ([] if any(x.startswith("VS=") for x in defs) else ["VS=4"]), unwind=9, hints={"dh__insert_ex": 7, "dh__find_bucket": 7}, fp=DHFP, rename={"calloc": "h_calloc", "free": "h_free"}, no_rename=["calloc", "free"], object_bits=10, optional_reach=ANY, subst=DHSUB, checks=["pointer"])
    d.update(kw)
    return d
_dhs = {"same": "4,4,4", "wrap": "1,5,0", "near": "3,7,10"}
PROPS["C28"] = {"jobs": [dh("map-" + n, "K=4", "NK=3", "EXT=160", "HASHES={%s}" % h, checks=["none"]) for n, h in _dhs.items()] + [
  dh("memory", "K=2", "NK=3", "EXT=160", "HASHES={4,4,4}", "OPS=3", "INPLACE"), dh("memory12", "K=2", "NK=2", "EXT=200", "HASHES={4,4}", "VS=12"),
  dh("small-storage", "K=1", "NK=2", "EXT=72", "HASHES={4,4}"),
  dh("iterate", "K=3", "NK=3", "EXT=160", "FIN=1", "HASHES={1,5,0}", checks=["none"]), dh("free", "K=3", "NK=3", "FIN=2", "EXT=160", "HASHES={4,4,0}", checks=["none"]),
  dh("grow", "K=3", "NK=3", "INIT=1", "SEQ={0,0,0}", "KLO={0,1,0}", "KHI={0,1,2}", "GROWAT=3", "HASHES={4,4,4}"),
  dh("grow-fail", "K=3", "NK=3", "INIT=1", "SEQ={0,0,0}", "KLO={0,1,0}", "KHI={0,1,2}", "GROWAT=3", "HASHES={3,7,10}", "ALLOCFAIL"),
  dh("grow-removed", "K=5", "NK=4", "INIT=1", "SEQ={0,0,1,0,0}", "KLO={0,1,0,2,0}", "KHI={0,1,1,2,3}", "GROWAT=5", "HASHES={2,4,2,5}", checks=["none"]),
  dh("keys", "STR=4", unwind=6, rename={}, no_rename=[])]}
PROPS["C35"] = {"jobs": [dict(name="%s%s%d" % (n, "-edges" if w else "", c), src="numfmt.c", repo=["src/util/range_strings.c", "src/util/intmath.c"], defs=d + w + ["CAP=%d" % c, "PRE=%d" % p], unwind=19, checks=["pointer", "signed"], thorough=dict(defs=d + w + ["CAP=%d" % c, "PRE=%d" % p, "MAXV=999999"]))
  for n, d in (("signed", []), ("unsigned", ["UNSIGNED"])) for w, c, p in [(["MAXV=99999"], c, p) for c, p in ((0, 0), (1, 0), (2, 0), (3, 1), (5, 0), (6, 0), (13, 1))] + [(["WIN"], c, 0) for c in (8, 10, 11, 12)]]}
GUARD = {"src/evfs.c": [(r"(static Evfs \*s_vfs_list\b[^;]*;)", r"\1\nvoid vp_guard(void);\n"), (r"(static Evfs \*s_default_vfs\b[^;]*;)", r"\1\n#define s_vfs_list (*(vp_guard(), &s_vfs_list))\n#define s_default_vfs (*(vp_guard(), &s_default_vfs))\n")]}
PROPS["C18"] = {"jobs": [dict(name="interleave", src="conc.c", repo=CORE, inc=["src"], defs=["USE_PTHREADS", "K=2", "ENV=1"], unwind=6, subst=GUARD, solver="race", thorough={"defs": ["USE_PTHREADS", "K=2", "ENV=2"]}, fp={"m_vfs_ctrl": ["r_ctrl"], "m_stat": ["r_stat"]}, checks=["pointer"]),
  dict(name="history-locks", src="registry.c", repo=CORE, inc=["src"], defs=["K=3", "USE_PTHREADS"], unwind=5, hints={"harness": 9}, fp={"m_vfs_ctrl": ["r_ctrl", "default__vfs_ctrl"]}, checks=["pointer"])]}
TBM = {"m_close": ["b_close"], "m_read": ["b_read"], "m_sync": ["b_sync"], "m_size": ["b_size"], "m_seek": ["b_seek"], "m_tell": ["b_tell"]}
TFM = dict(_m("tarfs__file_", _FM), m_open=["tarfs__open"], m_stat=["tarfs__stat"], m_vfs_ctrl=["tarfs__vfs_ctrl"])
def tar(name, part, *defs, **kw):
    fp = dict(TBM) if part == 0 else {k: TBM.get(k, []) + TFM.get(k, []) for k in set(TBM) | set(TFM)}
    d = dict(name=name, src="tar.c", repo=CORE, inc=["src"], defs=["PART=%d" % part, "USE_PTHREADS", "RCAP=8", "BLK=1024" if "RSRC" in defs else "BLK=512"] + ([] if any(x.startswith("KCAP") for x in defs) else ["KCAP=32"]) + list(defs), unwind=13, object_bits=10,
             replace=[] if part < 2 else ["evfs_vfs_path_is_absolute", "evfs_vfs_path_absolute"], cfg={"EVFS_MAX_PATH": "16"},
             hints={"tar_valid_header": 501, "run": 33, "hdr_sum": 345, "hdr_fill": 156, "one": 2049, "setup": 33, "clean": 33, "harness": 33, "tar_field_len": 6}, fp=fp, fph=fp, checks=["pointer"])
    d.update(kw)
    return d
TARJ = [tar("iter-header", 0, solver="race"), tar("iter-sizes", 0, "FIXEDSIZE", solver="race"), tar("iter-next", 0, "FIXEDSIZE", "NEXT", solver="race")] + [
  tar("rsrc-%s" % nm, 1, "LEN=%d" % n, "OFFS={%s}" % o, solver="race") for nm, n, o in (("empty", 0, "0"), ("short", 500, "0"), ("one", 512, "0"), ("inner", 1536, "512"), ("ends", 1536, "1536,-1,1100"))] + [
  tar("rsrc-next", 1, "LEN=2048", "OFFS={1024}", "NEXT=3", solver="race"), tar("rsrc-last", 1, "LEN=1024", "OFFS={1024}", "NEXT=512")]
PROPS["C12"] = {"jobs": TARJ + [tar("faults", 2, "FAULTS=20", "KLEN"), tar("faults-rsrc", 2, "RSRC", "FAULTS=8")]}
TARF = [tar("lookup", 2), tar("lookup-rsrc", 2, "RSRC"), tar("relative", 2, "RELQ"), tar("relative-rsrc", 2, "RSRC", "RELQ")]
_pre = ["TYPES={'0','0','5'}", "NLEN={2,1,2}", "PLEN={1,2,2}", "SIZES={5,7,0}"]
TARF += [tar("prefix", 2, *_pre), tar("prefix-rsrc", 2, "RSRC", *_pre)]
_lng = ["TYPES={'0','5','0'}", "SIZES={5,0,20}", "LONGNAME=256", "PRE_N=155", "KCAP=300", "NLEN={100,2,2}", "PLEN={155,0,0}"]
TARF += [tar("longname", 2, *_lng, hints={"dh_lookup": 257, "setup": 302, "clean": 302, "harness": 302, "strlen": 264, "full": 156, "hdr_fill": 156, "tar_field_len": 156})]
TARD = [tar("read%s%d" % (r.lower(), k), 3, 'FILENAME="%s"' % n, "FILEIX=%d" % k, "STEPS=2", "TYPES={'0','5','0'}", "NLEN={2,2,2}", "SIZES={5,0,20}", *([r] if r else [])) for r in ("", "RSRC") for k, n in ((0, "/aa"), (2, "/cc"))]
PROPS["C11"] = {"jobs": TARF + TARD}
PROPS["C22"]["jobs"] += [tar("tar", 4, 'FILENAME="/aa"', "FILEIX=0"), tar("tar-rsrc", 4, "RSRC", 'FILENAME="/aa"', "FILEIX=0")]
TARRF = [tar("relfail", 2, "RELQ", "RELFAIL"), tar("relfail-rsrc", 2, "RSRC", "RELQ", "RELFAIL")]
SEEK = dict(name="absolute", src="seek.c", repo=CORE, inc=["src"], unwind=5, checks=["pointer"])
def shimj(name, shim, part, **kw):
    d = dict(name=name, src="shimops.c", inc=["src"], checks=["pointer"])
    if shim: d.update(repo=JAIL, defs=["SHIM=1", "PART=%d" % part, "VP_MM=25", "USE_PTHREADS"], unwind=18, cfg=JMAX, hints=JH, rename=MM, replace=PATHF + ["evfs__vmprintf"])
    else: d.update(repo=CORE+["src/util/bsd_string.c"], defs=["SHIM=0", "PART=%d" % part, "USE_PTHREADS"], unwind=36, replace=["evfs__vmprintf"])
    d.update(kw)
    return d
SHIMH = [shimj("trace-files", 0, 1), shimj("trace-dirs", 0, 2), shimj("jail-files", 1, 1), shimj("jail-dirs", 1, 2)]
PROPS["C16"] = {"jobs": [SEEK, stdio("stdio", 1), fatfs("fatfs", 1)] + TARD + [SHIMH[0], SHIMH[2]]}
def core(name, part, *defs, **kw): return dict(name=name, src="core.c", repo=CORE, inc=["src"], defs=["PART=%d" % part, "USE_PTHREADS"] + list(defs), unwind=kw.pop("unwind", 8), checks=["pointer"], **kw)
PROPS["C19"] = {"jobs": [core("core-open-close", 0, "ALLOCFAIL"), stdio("stdio", 0), fatfs("fatfs", 0), fatfs("fatfs-dirs", 3), stdio("stdio-dirs", 3), tar("tar-faults", 2, "FAULTS=20", "KLEN"), tar("rsrc-faults", 2, "RSRC", "FAULTS=8")] + TARRF + TARD[:1] + SHIMH}
PROPS["C32"] = {"jobs": [core("core-vfs-ops", 0, optional_reach=["alloc failed"]), core("core-paths-nofs", 3, "REG=0", unwind=20), core("core-paths", 3, "REG=1", unwind=20, object_bits=11),
  dict(PROPS["C18"]["jobs"][1], name="registry"), tar("tar-faults", 2, "FAULTS=20", "KLEN"), tar("rsrc-faults", 2, "RSRC", "FAULTS=8")] + TARRF + TARD[:1] + SHIMH +
  [dict(j, name="jail-"+j["name"], defs=j["defs"] + ["USE_PTHREADS"]) for j in jail(True) if "-" not in j["name"]] +
  [dict(j, name="jail-"+j["name"], defs=j["defs"] + ["USE_PTHREADS"]) for j in jail(True) if j["name"] in ("chdir-tight", "rename-tight")]}
import os
if os.environ.get("VP_EXP"):
    PROPS["C06"] = {"jobs": [rot("append", 0, 3, 4, "APPENDS=1")]}
    PROPS["C08"] = {"jobs": [rot("read", 1, 3, 4), rot("write", 1, 3, 4, "WRITE")]}
    PROPS["C09"] = {"jobs": [rot("truncate", 2, 3, 4), rot("trim", 2, 3, 4, "TRIM")]}
