"""C15: a stored JSON document can be queried by path and rebuilt."""
from .. import common, tlc, documents
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    m = tlc.run("MCDocuments", "MCDocumentsD.cfg" if T else "MCDocuments.cfg", workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    if not m.ok:
        raise tlc.TlcError("the specification of documents is wrong:\n" + m.msg)
    documents.run(c, 30 if T else 3)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCDocuments.tla exhaustive to a depth; then random documents stored by the real code in the storage forms "
                     "named, every list, value and translation decided by TLC against DocumentsTrace.tla")
