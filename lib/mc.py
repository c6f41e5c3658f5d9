"""Model checking the specification itself, from the committed configurations."""
import json
import re

import core


def behaviours(text):
    out = []
    for m in re.finditer(r'<<\s*"BEHAVIOUR",\s*"((?:[^"\\]|\\.)*)"\s*>>', text):
        out.append(json.loads(json.loads('"%s"' % m.group(1))))
    return out


def check(run, module, name, live=True, timeout=800):
    """the configurations cfg/<module>.<name>.<tier>*.cfg; -> the behaviours they print"""
    import glob
    import os
    got = []
    pat = "%s/cfg/%s.%s.%s*.cfg" % (core.SPEC, module, name, run.tier)
    files = sorted(glob.glob(pat))
    if not files:
        raise core.ToolError("no configuration " + pat)
    for f in files:
        r = core.tlc(module, cfg=f[:-4], coverage=run.thorough(), timeout=timeout, xmx="12g")
        if not r.clean:
            #  nothing to do with the code: the specification contradicts itself
            raise core.ToolError("%s does not hold of the specification:\n%s" % (os.path.basename(f), r.text[r.text.find('Error:'):][:3000]))
        b = behaviours(r.text)
        run.model(r, os.path.basename(f)[:-4])
        got += b
    return got
