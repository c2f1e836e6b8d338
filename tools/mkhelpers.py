"""Writes data/helpers.json: for every helper text the corpus reaches, one short snippet that needs it.
Run by hand when the corpus changes; the file is input material only."""
import collections
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), HERE]
from sim import gen  # noqa: E402
import paconvert.utils as U  # noqa: E402
from paconvert.converter import Converter  # noqa: E402

texts, cur = collections.OrderedDict(), [None]
add0 = U.UtilsFileHelper.add_code


def add(self, code):
    texts.setdefault(code.strip(), []).append(cur[0])
    return add0(self, code)


U.UtilsFileHelper.add_code = add
with tempfile.TemporaryDirectory() as d:
    for s in dict.fromkeys(gen.corpus()["h"]):
        cur[0] = s
        with open(d + "/a.py", "w", encoding="utf-8") as f:
            f.write(s)
        Converter(log_level="CRITICAL", no_format=True).run(d + "/a.py", d + "/o/b.py")
reps = [min(texts[t], key=lambda s: (len(s), s)) for t in texts]
with open(HERE + "/data/helpers.json", "w", encoding="utf-8") as f:
    json.dump(list(dict.fromkeys(reps)), f, ensure_ascii=False, indent=0)
print(len(texts), "helper texts,", len(set(reps)), "snippets")
