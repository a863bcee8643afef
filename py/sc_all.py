import importlib

WHERE = {
    "tasks-order": "sc_tasks",
    "tasks-stamps": "sc_stamps",
    "cache-pickle": "sc_cache",
    "cache-memo": "sc_cache",
    "trace-threads": "sc_trace",
    "format-hook": "sc_yapf",
    "run-command": "sc_cmd",
}


def load(name):
    importlib.import_module(WHERE[name])
