#!/bin/sh
# cargo's RUSTC_WRAPPER: records how the crates of the repository are compiled (for vx/expand.py)
case " $* " in
*" --crate-name elusiv"*) python3 -c 'import sys,os,json
a=sys.argv[1:]
if "--test" not in a:
    n=a[a.index("--crate-name")+1]
    json.dump(dict(argv=a,env=dict(os.environ),cwd=os.getcwd()),open(os.path.join(os.environ["VX_CMD_DIR"],"cmd-"+n+".json"),"w"))' "$@";;
esac
exec "$@"
