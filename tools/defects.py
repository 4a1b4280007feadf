#!/usr/bin/env python3
"""Known-bad variants of the design models: each must give TLC a counterexample, or the models' invariants say nothing.
   defects.py [SUBSTRING]"""
import os, re, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# (module, configuration, changes to its constants, defect)
LIST = [
    ("ReaderImpl", "Reader-base", {"Pads": "{0, 4}"}, "no-cr-holdback"),
    ("ReaderImpl", "Reader-base", {"Pads": "{0, 4}"}, "short-holdback"),
    ("ReaderImpl", "Reader-base", {"Pads": "{0, 4}"}, "min-too-small"),
    ("ReaderImpl", "Reader-base", {"Pads": "{0, 4}"}, "keep-unread"),
    ("ReaderImpl", "Reader-cut", {}, "bad-tail-ends"),
    ("ReaderImpl", "Reader-buffer", {"Cap0": "16", "MinBig": "16", "MaxLen": "2", "Pads": "{3, 4, 5}"}, "no-reserve"),
    ("SaveImpl", "Save-base", {}, "lose-on-open"),
    ("SaveImpl", "Save-base", {}, "disk-despite-limit"),
    ("SaveImpl", "Save-base", {}, "limit-forgets-text"),
    ("SaveImpl", "Save-base", {}, "file-limit-forgets-memory"),
    ("SaveImpl", "Save-base", {}, "force-falls-back"),
    ("SaveImpl", "Save-returns", {}, "retry-invalid"),
    ("SaveImpl", "Save-base", {}, "cut-is-invalid"),
    ("SaveImpl", "Save-wide", {}, "cut-is-invalid"),
    ("SaveImpl", "Save-errors", {}, "lose-text-on-error"),
    ("SaveImpl", "Save-errors", {}, "lose-file-on-error"),
    ("SaveImpl", "Save-errors", {}, "lose-on-write"),
    ("SaveImpl", "Save-errors", {}, "consume-all-on-failure"),
    ("EntriesImpl", "Entries-base", {}, "no-recount"),
    ("EntriesImpl", "Entries-base", {}, "count-above"),
    ("EntriesImpl", "Entries-base", {}, "count-names"),
    ("EntriesImpl", "Entries-base", {}, "push-front"),
    ("EntriesImpl", "Entries-errors", {}, "error-empties"),
    ("ClientImpl", "Client-base", {}, "no-separator"),
    ("ClientImpl", "Client-base", {}, "no-final"),
    ("ClientImpl", "Client-base", {}, "header-lost"),
    ("ClientImpl", "Client-base", {}, "length-with-stream"),
    ("ClientImpl", "Client-base", {}, "length-without-headers"),
    ("ClientImpl", "Client-base", {}, "length-without-end"),
    ("ClientImpl", "Client-base", {}, "queue-order"),
    ("ClientImpl", "Client-base", {}, "open-late"),
    ("ClientImpl", "Client-base", {}, "empty-read-ends"),
    ("ClientImpl", "Client-base", {}, "short-read-ends"),
    ("ClientImpl", "Client-base", {}, "interrupted-loses"),
    ("ClientImpl", "Client-base", {}, "interrupted-drops"),
    ("ClientImpl", "Client-base", {}, "write-once"),
    ("ClientImpl", "Client-base", {}, "interrupted-skips"),
    ("ClientImpl", "Client-again", {}, "fields-kept"),
    ("ClientImpl", "Client-again", {}, "boundary-kept"),
    ("ClientImpl", "Client-errors", {}, "fills-up"),
    ("ClientImpl", "Client-errors", {}, "failure-is-end"),
    ("ClientImpl", "Client-errors", {}, "finish-despite-error"),
    ("ClientImpl", "Client-errors", {}, "ignore-refusal"),
    ("ClientImpl", "Client-errors", {}, "ignore-finish"),
    ("ClientImpl", "Client-returns", {}, "zero-spins"),
    ("MockImpl", "Mock-base", {}, "forgets-inner-flush"),
    ("SaveDirImpl", "SaveDir-base", {}, "keep-drops"),
    ("SaveDirImpl", "SaveDir-base", {}, "keep-empties"),
    ("SaveDirImpl", "SaveDir-base", {}, "keep-noop"),
    ("SaveDirImpl", "SaveDir-base", {}, "intopath-drops"),
    ("SaveDirImpl", "SaveDir-base", {}, "entries-drop-deletes"),
    ("SaveDirImpl", "SaveDir-base", {}, "delete-temp-leaks"),
    ("SaveDirImpl", "SaveDir-base", {}, "delete-perm-keeps"),
    ("SaveDirImpl", "SaveDir-base", {}, "drop-leaks"),
    ("SaveDirImpl", "SaveDir-base", {}, "drop-deletes"),
    ("MockImpl", "Mock-base", {}, "takes-nothing"),
    ("MockImpl", "Mock-base", {}, "stores-all"),
    ("MockImpl", "Mock-base", {}, "measures"),
    ("MockImpl", "Mock-base", {}, "gives-nothing"),
    ("MockImpl", "Mock-base", {}, "skips"),
    ("MockImpl", "Mock-base", {}, "tells-anyway"),
    ("MockImpl", "Mock-base", {}, "writes-once"),
    ("InterceptImpl", "Intercept-base", {}, "second-unlimited"),
    ("InterceptImpl", "Intercept-base", {}, "second-uncounted"),
    ("InterceptImpl", "Intercept-base", {}, "lenient-drops-cut"),
    ("InterceptImpl", "Intercept-base", {}, "lenient-stops-at-count"),
    ("InterceptImpl", "Intercept-base", {}, "names-first"),
    ("InterceptImpl", "Intercept-base", {}, "counts-wrong"),
    ("InterceptImpl", "Intercept-base", {}, "strict-leaks"),
    ("InterceptImpl", "Intercept-base", {}, "lenient-forgives"),
    ("InterceptImpl", "Intercept-base", {}, "fault-is-end"),
    ("InterceptImpl", "Intercept-base", {}, "keeps-dir"),
]


def main():
    bad = 0
    for module, cfg, const, defect in LIST:
        if len(sys.argv) > 1 and sys.argv[1] not in module + cfg + defect:
            continue
        t = open(os.path.join(SPEC, "models", cfg + ".cfg")).read()
        for k, v in list(const.items()) + [("Defects", '{"%s"}' % defect)]:
            t, n = re.subn(r"(?m)^(\s*%s =).*$" % k, r"\1 " + v, t)
            assert n == 1, (cfg, k)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "d.cfg")
            open(f, "w").write(t)
            p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx6g", "-cp", JARS, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-workers", "8",
                                "-config", f, module + ".tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        o = p.stdout.decode()
        m = re.search(r"Error: (Invariant \w+ is violated|Temporal property \w+ was violated|Temporal properties were violated)", o)
        bad += not m
        print("%-12s %-14s %-28s %s" % (module, cfg, defect, m.group(1) if m else "NO COUNTEREXAMPLE " + o[-300:]), flush=True)
    sys.exit(1 if bad else 0)


main()
