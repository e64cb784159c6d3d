"""Which binaries decide which property: (check source, scope, variant, extra sources)."""


def core(src, *variants):
    return [("checks/%s.cpp" % src, "core", v, []) for v in variants]


def full(src, *variants, extra=()):
    return [("checks/%s.cpp" % src, "full", v, list(extra)) for v in variants]


CHECKS = {
    "C01": {"binaries": core("q_model", "asan")},
    "C02": {"binaries": core("q_conc", "sched", "tsan")},
    "C03": {"binaries": core("scope_guard", "asan")},
    "C04": {"binaries": core("cb_model", "asan")},
    "C05": {"binaries": core("cb_conc", "sched", "tsan")},
    "C06": {"binaries": core("vocab", "asan", "tsan")},
    "C07": {"binaries": core("vocab", "asan")},
    "C08": {"binaries": full("tree_model", "plain", "asan") + full("driven", "plain", "asan") + full("sizes", "plain", "asan")},
    "C09": {"binaries": full("conc_tree", "sched", "tsan")},
    "C10": {"binaries": full("reset_indep", "plain", "asan")},
    "C11": {"binaries": full("conc_tree", "sched", "tsan")},
    "C12": {"binaries": full("conc_par", "sched", "tsan") + full("sizes", "plain", "asan")},
    "C13": {"binaries": full("runner", "plain", "asan") + full("breaks", "sched", "tsan")},
    "C14": {"binaries": full("async_runner", "sched", "tsan")},
    "C15": {"binaries": full("local_job", "sched", "tsan") + full("sizes", "plain", "asan")},
    "C16": {"binaries": full("ws_model", "plain", "asan") + full("sizes", "plain", "asan")},
    "C17": {"binaries": full("ws_model", "plain", "asan") + full("sizes", "plain", "asan")},
    "C18": {"binaries": full("ws_conc", "sched", "tsan")},
    "C19": {"binaries": full("actions", "plain", "asan") + full("sizes", "plain", "asan")},
    "C20": {"binaries": full("actions", "plain", "asan") + full("sizes", "plain", "asan")},
    "C21": {"binaries": full("timed", "sched") + full("sizes", "plain", "asan")},
    "C22": {"binaries": full("dialogue", "plain", "asan") + full("sizes", "plain", "asan")},
    "C23": {"binaries": full("attrs", "plain", "asan") + full("sizes", "plain", "asan")},
    "C24": {"binaries": full("xml", "plain", "asan")},
    "C25": {"binaries": full("include", "plain", "asan") + full("sizes", "plain", "asan")},
    "C26": {"binaries": full("robust", "plain", "asan")},
    "C27": {"binaries": full("info", "plain", "asan")},
    "C28": {"binaries": full("input_adapter", "sched", "tsan") + full("sizes", "plain", "asan")},
    "C29": {"binaries": full("cli", "plain", "asan", extra=["app:oac-tree-cli:oac_cli_main",
                                                           "app:oac-tree-daemon:oac_daemon_main"])},
    "C30": {"binaries": full("monitor_conc", "sched", "tsan") + full("sizes", "plain", "asan")},
    "C31": {"binaries": full("building", "plain", "asan") + full("sizes", "plain", "asan")},
    "C32": {"binaries": full("helpers", "plain", "asan", "sched")},
    "C33": {"binaries": full("memory", "plain")},
    "C34": {"binaries": full("ways", "sched")},
    "C35": {"binaries": full("ways", "sched", "tsan")},
}
