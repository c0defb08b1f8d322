"""Which module decides which property."""

PROPERTIES = {}


def reg(pid, module, **kw):
    PROPERTIES[pid] = dict(module="props." + module, **kw)


for _p in ("C01", "C02", "C03"):
    reg(_p, "lexing")
reg("C10", "checks")
reg("C11", "cli")
reg("C20", "robust")
reg("C23", "report")
reg("C21", "verifyp")
reg("C26", "lintp")
reg("C27", "messages")
reg("C15", "names")
reg("C22", "apiview")
reg("C28", "declp")
reg("C29", "filesp")
reg("C30", "progressp")
reg("C31", "linksp")
for _p in ("C24", "C25"):
    reg(_p, "markup")
for _p in ("C16", "C19"):
    reg(_p, "files")
for _p in ("C12", "C13", "C14", "C17", "C18"):
    reg(_p, "objects")
for _p in ("C04", "C05", "C06", "C07", "C08", "C09"):
    reg(_p, "expr")
