import importlib
RULES = {}
for n in ('store', 'state', 'panics', 'format', 'recovery', 'generate', 'cmd', 'ops', 'lists', 'shown', 'shell', 'leaks', 'wiped', 'dialog'):
    RULES.update(importlib.import_module('rules.' + n).RULES)
