"""Findings that are reported but do not fail a check (see known_findings)."""

import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "known_findings.json")

with open(PATH) as _f:
    _doc = json.load(_f)

OPEN = _doc["open"]


def match(pid, entry, kind, message):
    for k in OPEN:
        if k["property"] == pid and k["entry"] == entry \
                and k["kind"] == kind and k["contains"] in message:
            return k["id"]
    return None
