"""runs the log parser of the file argv[1] on requests read from stdin: [[file, block], ...]"""
import importlib.util, json, sys
spec = importlib.util.spec_from_file_location("ids_log_parser", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
out, logs = [], {}
for fn, block in json.load(sys.stdin):
    try:
        out.append(["ok", logs.setdefault(fn, mod.IdsLogFile(fn)).parse_block_nr(block)])
    except Exception as e:
        out.append(["error", "%s: %s" % (type(e).__name__, e)])
json.dump(out, open(sys.argv[2], "w"))
