import sys, shutil, subprocess, importlib
sys.path.insert(0,"/tmp/refac"); import lib
for m in "abcdefg":
    try: importlib.import_module(m)
    except ModuleNotFoundError: pass
id=sys.argv[1]; w="/tmp/mk-"+id
shutil.rmtree(w,ignore_errors=True); subprocess.run(["cp","-a","/repo",w]); lib.apply(id,w); print(w)
