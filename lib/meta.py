"""One entry per property: what it says, where it lives, what its check covers.
tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
META = {}
NA = []     # (property, reason)


def meta(pid, title, statement, over, text, why, files, mechanism, bounds, outside, note, state=(), observe="", assumptions=()):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                     bounds=bounds, outside=outside, note=note, state=list(state), observe=observe,
                     assumptions=list(assumptions))


def na(pid, reason, **kw):
    NA.append((pid, reason))
    if kw: meta(pid, bounds="", outside="", note="", **kw)


from metadata import *  # noqa
