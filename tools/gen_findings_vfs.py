"""Histories of known findings of the file layer (see KNOWN_FINDINGS.md)."""
import json, os
def C(v,*i): return {"v":v,"imps":list(i)}
def B(ops, texts, opened, results, config="one", dirs=()):
    return dict(config=config,dirs=list(dirs),start=C(1),ops=ops,
        final=dict(flush=[],texts=texts,outs={},opened=opened,results=results,announce=[]))
F={}
# A populated directory arrives (one report for it) where the tree still has a
# directory entry left over from a closed unsaved buffer.
F["V01-dir-populated-while-known"]=B([
    dict(op="store",p="d/c.py",c=C(1)), dict(op="close",p="d/c.py",ok=True),
    dict(op="movein",p="d",files=["d/c.py"],c=C(2)), dict(op="deliver",p="d")],
    {"d/c.py":C(2)},[],{})
# The directory is replaced by another one before the report is delivered.
F["V01-dir-swapped-before-report"]=B([
    dict(op="movein",p="d",files=["d/c.py"],c=C(1)), dict(op="deliver",p="d"),
    dict(op="readall",texts={"d/c.py":C(1)},outs={},opened=[]),
    dict(op="moveaway",p="d"), dict(op="movein",p="d",files=["d/c.py"],c=C(2)),
    dict(op="deliver",p="d"), dict(op="deliver",p="d")],
    {"d/c.py":C(2)},[],{})
# A workspace root that is nested in another root is replaced.
F["V01-nested-root-replaced"]=B([
    dict(op="moveaway",p="d"), dict(op="deliver",p="d"),
    dict(op="movein",p="d",files=["d/c.py"],c=C(2)), dict(op="deliver",p="d")],
    {"d/c.py":C(2)},[],{},config="inner-last",dirs=["d"])
# A buffer whose path is a directory on disk / below a file.
F["V01-buffer-on-directory"]=B([
    dict(op="mkdir",p="d"), dict(op="deliver",p="d"),
    dict(op="store",p="d",c=C(1))], {}, ["d"], {})
F["V01-buffer-below-file"]=B([
    dict(op="write",p="a.py",c=C(1)), dict(op="deliver",p="a.py"),
    dict(op="store",p="a.py/x.py",c=C(1))], {}, ["a.py/x.py"], {})
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","findings")
for k,b in F.items():
    open(os.path.join(here,k+".json"),"w").write(json.dumps(b)+"\n")
